------------------------------ MODULE Develop ------------------------------
(* What a developed picture (process-raw) is: which sensor site each pixel shows, for *)
(* every crop mode, and the colour it has: what the camera would measure of the       *)
(* developed colour is what it measured. x: the source (w, h, kind, cfa, active, crop, *)
(* black, white, wb, m, data as rows of samples), active = <<top, left, bottom, right>>,*)
(* crop = <<left, top, width, height>> relative to it, <<>> if there is none.          *)
EXTENDS Integers, Sequences, FiniteSets
Rect(t, l, h, w) == [t |-> t, l |-> l, h |-> h, w |-> w]
Whole(x) == Rect(0, 0, x.h, x.w)
Active(x) == IF x.active = <<>> THEN Whole(x) ELSE Rect(x.active[1], x.active[2], x.active[3] - x.active[1], x.active[4] - x.active[2])
Crop(x) == IF x.crop = <<>> THEN Active(x) ELSE Rect(Active(x).t + x.crop[2], Active(x).l + x.crop[1], x.crop[4], x.crop[3])
\* sites colours are looked for in, and sites shown
Frame(x, mode) == IF mode = "none" THEN Whole(x) ELSE Active(x)
Picture(x, mode) == CASE mode = "best" -> Crop(x) [] mode = "activearea" -> Active(x) [] OTHER -> Whole(x)
Site(x, mode, r, c) == <<Picture(x, mode).t + r, Picture(x, mode).l + c>>
\* colours and levels belong to the active area's corner
Phase(a, n) == (a + (n * 1000)) % n
ColourAt(x, s) == x.cfa.pat[(Phase(s[1] - Active(x).t, x.cfa.h) * x.cfa.w) + Phase(s[2] - Active(x).l, x.cfa.w) + 1]
BlackAt(x, s, k) == x.black.l[(((Phase(s[1] - Active(x).t, x.black.h) * x.black.w) + Phase(s[2] - Active(x).l, x.black.w)) * x.cpp) + k]
Sample(x, s, k) == x.data[s[1] + 1][(s[2] * x.cpp) + k]
--------------------------------------------------------------------------
\* Light is counted in units of 1/5,000,000. Inv[y + 1]: the light of output value y (the inverse of the sRGB curve), y = 0..65536
Unit == 5000000
Light(num, den) == LET q == (num * 5000) \div den r == (num * 5000) % den IN (q * 1000) + ((r * 1000) \div den)
Max0(v) == IF v < 0 THEN 0 ELSE v
Linear(x, s, k) == LET b == BlackAt(x, s, k) IN Light(Max0(Sample(x, s, k) - b), x.white[k] - b)
\* white balance of camera colour i: n/d
Balanced(x, i, v) == (v * x.wb[i][1]) \div x.wb[i][2]
\* light of an output value y, within a count on either side
Low(Inv, y) == IF y = 0 THEN 0 ELSE Inv[y]
High(Inv, y) == IF y >= 65534 THEN Inv[65537] ELSE Inv[y + 3]
\* camera colour i of the developed colour p, in hundredths of a unit: m is in hundredths
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Least(Inv, x, i, p) == Sum([j \in 1..3 |-> x.m[i][j] * (IF x.m[i][j] > 0 THEN Low(Inv, p[j]) ELSE High(Inv, p[j]))], 3)
Most(Inv, x, i, p) == Sum([j \in 1..3 |-> x.m[i][j] * (IF x.m[i][j] > 0 THEN High(Inv, p[j]) ELSE Low(Inv, p[j]))], 3)
Slack(v) == 4000 + (v \div 5000)
\* the camera would measure light v of the developed colour p in its colour i
Measures(Inv, x, i, p, v, slack) == LET t == 100 * Balanced(x, i, v) IN Least(Inv, x, i, p) - slack <= t /\ t <= Most(Inv, x, i, p) + slack
\* colours beyond the top are desaturated; what results has a channel above 7/9 of the range (1/2 + 1/2 * sqrt(1/3))
Clipped(Inv, p) == \E j \in 1..3 : p[j] = 0 \/ 9 * Inv[p[j] + 1] > 7 * Unit
\* where each camera colour is one of the developed ones and the light around is low there is nothing to clip
Plain(x) == Len(x.m) = 3 /\ \A i \in 1..3 : \E j \in 1..3 : x.m[i] = [k \in 1..3 |-> IF k = j THEN 100 ELSE 0]
Calm(x, L) == Plain(x) /\ \A l \in L : 20 * Balanced(x, l[1], l[2]) <= 7 * Unit
--------------------------------------------------------------------------
\* sites a pixel's colours may come from: not more than n away, in the frame
Around(x, mode, s, n) ==
  LET f == Frame(x, mode) IN
  {<<r, c>> : r \in {v \in (s[1] - n)..(s[1] + n) : v >= f.t /\ v < f.t + f.h}, c \in {v \in (s[2] - n)..(s[2] + n) : v >= f.l /\ v < f.l + f.w}}
\* lights: the light each colour has received in the sites around; one light each: the surroundings are of one colour
Lights(lin, col, A) == {<<col[a[1]][a[2]], lin[a[1]][a[2]]>> : a \in A}
Flat(L) == Cardinality(L) = Cardinality({l[1] : l \in L})
\* every colour changes by the same light per row and column (x.ramp): what a colour has at a site, told from another one
Inside(x, mode, s, n) == LET f == Frame(x, mode) IN s[1] - n >= f.t /\ s[1] + n < f.t + f.h /\ s[2] - n >= f.l /\ s[2] + n < f.l + f.w
Ramped(x, s, a, v) == v + (x.ramp[1] * (s[1] - a[1])) + (x.ramp[2] * (s[2] - a[2]))
=============================================================================
