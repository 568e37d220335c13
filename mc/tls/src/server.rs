//! Servers, honest ones and others.

use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
use tokio::net::{TcpListener, TcpSocket, TcpStream};
use tokio_rustls::rustls::server::{ClientHello, ResolvesServerCert, ServerConfig};
use tokio_rustls::rustls::{self, sign, Certificate, PrivateKey};
use tokio_rustls::server::TlsStream;
use tokio_rustls::TlsAcceptor;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Version {
  V12,
  V13,
}
pub const VERSIONS: [Version; 2] = [Version::V12, Version::V13];

/// How a server identifies itself.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Identity {
  pub name: &'static str,
  pub chain: &'static [&'static str],
  pub key: &'static str,
  /// change one byte of the certificate
  pub tampered: bool,
  /// the root certificates which vouch for it
  pub roots: &'static [&'static str],
}

const fn id(name: &'static str, chain: &'static [&'static str], roots: &'static [&'static str]) -> Identity {
  Identity { name, chain, key: chain[0], tampered: false, roots }
}

pub const IDENTITIES: &[Identity] = &[
  id("good", &["good"], &["root"]),
  id("good, several names", &["good_several"], &["root"]),
  id("good, wildcard", &["good_wildcard"], &["root"]),
  id("good, by an intermediate", &["good_chain", "intermediate"], &["root"]),
  id("good, with the root", &["good", "root"], &["root"]),
  id("good, by the other root", &["good_other"], &["other"]),
  id("missing intermediate", &["good_chain"], &[]),
  id("wrong intermediate", &["good_chain", "expired_intermediate"], &[]),
  id("another name", &["wrong_name"], &[]),
  id("parent names", &["parent_name"], &[]),
  id("wildcard of two levels", &["wide_wildcard"], &[]),
  id("name continued", &["prefix_name"], &[]),
  id("name with a prefix", &["suffix_name"], &[]),
  id("name only as the subject", &["only_subject"], &[]),
  id("addresses", &["address"], &[]),
  id("localhost", &["localhost"], &[]),
  id("expired", &["expired"], &[]),
  id("not yet valid", &["future"], &[]),
  id("only for clients", &["for_clients"], &[]),
  id("by a root with the same name", &["by_twin"], &["twin"]),
  id("by a root with the same name, included", &["by_twin", "twin"], &["twin"]),
  id("by an expired intermediate", &["by_expired", "expired_intermediate"], &[]),
  id("by a leaf", &["by_leaf", "good"], &[]),
  id("self-signed", &["self_signed"], &[]),
  id("the root itself", &["root"], &[]),
  Identity { name: "key of somebody else", chain: &["good"], key: "wrong_name", tampered: false, roots: &[] },
  Identity { name: "tampered", chain: &["good"], key: "good", tampered: true, roots: &[] },
  id("good after another one", &["wrong_name", "good"], &[]),
];

fn dir() -> String {
  format!("{}/certs", env!("CARGO_MANIFEST_DIR"))
}

fn read(name: &str, what: &str) -> Vec<u8> {
  let path = format!("{}/{name}.{what}", dir());
  std::fs::read(&path).unwrap_or_else(|e| mc_core::error(&format!("{path}: {e}")))
}

/// The path of a file with these root certificates.
pub fn store(roots: &[&str]) -> String {
  let path = std::env::temp_dir().join(format!("mc-tls-{}-{}.pem", std::process::id(), roots.join("-")));
  let bytes: Vec<u8> = roots.iter().flat_map(|r| read(r, "pem")).collect();
  if let Err(e) = std::fs::write(&path, bytes) {
    mc_core::error(&format!("{path:?}: {e}"));
  }
  path.to_string_lossy().into_owned()
}

struct Always(Arc<sign::CertifiedKey>);
impl ResolvesServerCert for Always {
  fn resolve(&self, _: ClientHello) -> Option<Arc<sign::CertifiedKey>> {
    Some(self.0.clone())
  }
}

impl Identity {
  fn certified(&self) -> sign::CertifiedKey {
    let mut chain = vec![];
    for name in self.chain {
      match rustls_pemfile::certs(&mut &read(name, "pem")[..]) {
        Ok(c) => chain.extend(c.into_iter().map(Certificate)),
        Err(e) => mc_core::error(&format!("{name}: {e}")),
      }
    }
    if self.tampered {
      // within the serial number
      chain[0].0[16] ^= 1;
    }
    let keys = rustls_pemfile::pkcs8_private_keys(&mut &read(self.key, "key")[..]);
    let Some(key) = keys.ok().and_then(|k| k.into_iter().next()) else { mc_core::error("no key") };
    match sign::any_ecdsa_type(&PrivateKey(key)) {
      Ok(key) => sign::CertifiedKey::new(chain, key),
      Err(e) => mc_core::error(&format!("{e}")),
    }
  }

  pub fn config(&self, version: Version) -> ServerConfig {
    let versions: &[&rustls::SupportedProtocolVersion] = match version {
      Version::V12 => &[&rustls::version::TLS12],
      Version::V13 => &[&rustls::version::TLS13],
    };
    let builder = ServerConfig::builder().with_safe_default_cipher_suites().with_safe_default_kx_groups();
    match builder.with_protocol_versions(versions) {
      Ok(b) => b.with_no_client_auth().with_cert_resolver(Arc::new(Always(Arc::new(self.certified())))),
      Err(e) => mc_core::error(&format!("{e}")),
    }
  }
}

/// Shared by all connections, so that sessions can be resumed.
fn shared(identity: usize, version: Version) -> Arc<ServerConfig> {
  static ALL: OnceLock<Vec<[Arc<ServerConfig>; 2]>> = OnceLock::new();
  let all = ALL.get_or_init(|| IDENTITIES.iter().map(|i| VERSIONS.map(|v| Arc::new(i.config(v)))).collect());
  all[identity][version as usize].clone()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Server {
  /// index into IDENTITIES
  Tls(usize, Version),
  /// a good one, cut short after this many bytes
  Cut(usize, Version),
  /// nobody listens
  Refuses,
  /// IRC without TLS
  PlainAtOnce,
  PlainAfter,
  Http,
  Garbage,
  Alert,
  /// the record of a handshake which makes no sense
  OddHandshake,
  Closes,
  ClosesAfter,
  Resets,
  Echoes,
  Silent,
}

pub const WITHOUT_TLS: &[Server] = &[
  Server::Refuses,
  Server::PlainAtOnce,
  Server::PlainAfter,
  Server::Http,
  Server::Garbage,
  Server::Alert,
  Server::OddHandshake,
  Server::Closes,
  Server::ClosesAfter,
  Server::Resets,
  Server::Echoes,
];

impl Server {
  pub fn good(self, roots: &[&str]) -> bool {
    match self {
      Server::Tls(i, _) => IDENTITIES[i].roots.iter().any(|r| roots.contains(r)),
      _ => false,
    }
  }
  pub fn name(self) -> String {
    match self {
      Server::Tls(i, v) => format!("{} ({v:?})", IDENTITIES[i].name),
      s => format!("{s:?}"),
    }
  }
}

/// What a server saw.
#[derive(Clone, Debug, Default)]
pub struct Seen {
  pub accepted: bool,
  pub raw: Vec<u8>,
  pub plain: Vec<u8>,
  pub established: bool,
  pub server_name: Option<String>,
  /// something which it wanted to write was held back
  pub cut: bool,
}

pub type Log = Arc<Mutex<Seen>>;

fn with<T>(log: &Log, f: impl FnOnce(&mut Seen) -> T) -> T {
  f(&mut log.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Records what is received, and may stop writing.
struct Tap {
  stream: TcpStream,
  log: Log,
  left: Option<usize>,
}

impl Tap {
  /// Wait until the client has closed the connection, without leaving it
  /// behind in a state which occupies its port.
  async fn end(&mut self) {
    let mut buf = [0; 4096];
    while let Ok(1..) = self.read(&mut buf).await {}
    let _ = self.stream.set_linger(Some(std::time::Duration::ZERO));
  }
}

impl AsyncRead for Tap {
  fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let before = buf.filled().len();
    let r = Pin::new(&mut self.stream).poll_read(cx, buf);
    with(&self.log, |s| s.raw.extend_from_slice(&buf.filled()[before..]));
    r
  }
}

impl AsyncWrite for Tap {
  fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
    let n = match self.left {
      Some(left) if buf.len() > left => {
        with(&self.log, |s| s.cut = true);
        if left == 0 {
          return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        left
      }
      _ => buf.len(),
    };
    let r = Pin::new(&mut self.stream).poll_write(cx, &buf[..n]);
    if let (Poll::Ready(Ok(n)), Some(left)) = (&r, &mut self.left) {
      *left -= n;
    }
    r
  }
  fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    Pin::new(&mut self.stream).poll_flush(cx)
  }
  fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    // the client closes first
    self.poll_flush(cx)
  }
}

pub const GREETING: &str = ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n:tmi.twitch.tv 001 some_login :Welcome, GLHF!\r\n";
pub const AFTER: &str = "PING :after\r\n";

/// An IRC server.
async fn converse(tls: &mut tokio_rustls::server::TlsStream<Tap>, log: &Log) -> io::Result<()> {
  let mut buf = [0; 4096];
  let mut greeted = false;
  loop {
    let n = tls.read(&mut buf).await?;
    if n == 0 {
      return Ok(());
    }
    let (hello, all) = with(log, |s| {
      s.plain.extend_from_slice(&buf[..n]);
      let text = String::from_utf8_lossy(&s.plain).into_owned();
      (text.contains("NICK ") && text.ends_with('\n'), text.contains("PRIVMSG") && text.ends_with('\n'))
    });
    if hello && !greeted {
      greeted = true;
      tls.write_all(GREETING.as_bytes()).await?;
      tls.write_all(AFTER.as_bytes()).await?;
      tls.flush().await?;
    }
    if all {
      return tls.shutdown().await;
    }
  }
}

/// Serve one connection.
async fn serve(server: Server, stream: TcpStream, log: Log) -> io::Result<()> {
  with(&log, |s| s.accepted = true);
  let mut tap = Tap { stream, log: log.clone(), left: None };
  let mut buf = [0; 4096];
  let config = match server {
    Server::Tls(i, v) => Some(shared(i, v)),
    Server::Cut(n, v) => {
      tap.left = Some(n);
      let mut config = IDENTITIES[0].config(v);
      // nothing but the handshake is cut
      config.send_tls13_tickets = 0;
      Some(Arc::new(config))
    }
    _ => None,
  };
  if let Some(config) = config {
    let cut = matches!(server, Server::Cut(..));
    match TlsAcceptor::from(config).accept(tap).into_fallible().await {
      Err((_, mut tap)) => {
        if cut {
          tap.stream.shutdown().await?;
        }
        tap.end().await;
      }
      Ok(mut tls) => {
        with(&log, |s| {
          s.established = true;
          s.server_name = tls.get_ref().1.server_name().map(String::from);
        });
        if cut && with(&log, |s| s.cut) {
          // the last bytes of the handshake were held back
          tls.get_mut().0.stream.shutdown().await?;
        }
        tls.get_mut().0.left = None;
        let _ = converse(&mut tls, &log).await;
        tls.get_mut().0.end().await;
      }
    }
    return Ok(());
  }
  match server {
    Server::PlainAtOnce => tap.write_all([GREETING, AFTER].concat().as_bytes()).await?,
    Server::Garbage => tap.write_all(&[0x5a; 500]).await?,
    Server::Alert => tap.write_all(&[21, 3, 3, 0, 2, 2, 40]).await?,
    Server::OddHandshake => tap.write_all(&[&[22, 3, 3, 0, 40, 2, 0, 0, 36, 3, 3][..], &[7; 34]].concat()).await?,
    Server::Closes => {
      tap.stream.shutdown().await?;
    }
    Server::Resets => {
      return tap.stream.set_linger(Some(std::time::Duration::ZERO));
    }
    _ => {}
  }
  loop {
    let n = match tap.read(&mut buf).await {
      Ok(n) if n > 0 => n,
      _ => {
        tap.end().await;
        return Ok(());
      }
    };
    match server {
      Server::PlainAfter => tap.write_all([GREETING, AFTER].concat().as_bytes()).await?,
      Server::Http => tap.write_all(b"HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n").await?,
      Server::ClosesAfter => tap.stream.shutdown().await?,
      Server::Echoes => tap.write_all(&buf[..n]).await?,
      _ => {}
    }
  }
}

pub struct Running {
  pub port: u16,
  pub log: Log,
  pub task: Option<tokio::task::JoinHandle<()>>,
}

/// A port on loopback where connections are accepted.
pub async fn accept() -> (u16, TcpListener) {
  let mut tries = 0;
  let listener = loop {
    let size = crate::world::BUFFERS.with(|b| b.get()) as u32;
    let listen = || {
      let socket = TcpSocket::new_v4()?;
      if size != 0 {
        socket.set_recv_buffer_size(size)?;
      }
      socket.bind(([127, 0, 0, 1], 0).into())?;
      socket.listen(16)
    };
    match listen() {
      Ok(l) => break l,
      // all ports are in use for the moment
      Err(_) if tries < 600 => {
        tries += 1;
        tokio::time::sleep(std::time::Duration::from_millis(50)).await;
      }
      Err(e) => mc_core::error(&format!("cannot listen on loopback: {e}")),
    }
  };
  (listener.local_addr().map(|a| a.port()).unwrap_or(0), listener)
}

/// The handshake of a good server.
pub async fn hello(stream: TcpStream, version: Version) -> io::Result<TlsStream<TcpStream>> {
  TlsAcceptor::from(shared(0, version)).accept(stream).await
}

/// Start a server for one connection.
pub async fn start(server: Server) -> Running {
  let log = Log::default();
  if server == Server::Refuses {
    return Running { port: 0, log, task: None };
  }
  let (port, listener) = accept().await;
  let l = log.clone();
  let task = tokio::spawn(async move {
    if let Ok((stream, _)) = listener.accept().await {
      let _ = stream.set_nodelay(true);
      let _ = serve(server, stream, l).await;
    }
  });
  Running { port, log, task: Some(task) }
}
