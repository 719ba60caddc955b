// Serves a directory with embedftp using an arbitrary user table:
//   ftphost ROOT HOST PORT ANON(0|1) [name:pass]...
use embedftp::config::{Config, FtpCallback, User};
use std::path::PathBuf;

#[derive(Clone)]
struct Plain;
impl FtpCallback for Plain {}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let mut config = Config::new("none").expect("config");
  config.server_port = args[3].parse().expect("port");
  config.server_addr = args[2].parse().expect("addr");
  config.anonymous = args[4] == "1";
  config.users = args[5..]
    .iter()
    .map(|a| {
      let (n, p) = a.split_once(':').expect("name:pass");
      User { name: n.into(), password: p.into() }
    })
    .collect();
  let root = PathBuf::from(&args[1]);
  let rt = tokio::runtime::Builder::new_multi_thread().enable_all().build().expect("runtime");
  let handle = rt.handle().clone();
  rt.block_on(async move { embedftp::server::serve(handle, root, config, Plain).await }).expect("serve");
}
