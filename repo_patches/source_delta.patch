From 141ac105124b1317cf6548595af7e0d340a25fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:30 +0000
Subject: [PATCH 01/17] fix: take UDP states one datagram at a time instead of
 overwriting and dropping newer ones

---
 src/network.rs | 104 +++++++++++++++++++++++++++++--------------------
 1 file changed, 61 insertions(+), 43 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index ec999ea..f11f35f 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -8,13 +8,13 @@ extern crate nix;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
 use std::os::unix::io::AsRawFd;
 use std::str::FromStr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use mio::net::{TcpStream, UdpSocket};
 use mio::{Events, Interest, Poll, Token};
@@ -39,6 +39,11 @@ pub enum NetworkType {
     Gripper,
 }
 
+enum UdpReceiveError {
+    WrongSize(usize),
+    Io(std::io::Error),
+}
+
 pub trait MessageCommand {
     fn get_command_message_id(&self) -> u32;
 }
@@ -247,55 +252,68 @@ impl Network {
         response_bytes.unwrap()
     }
     pub fn udp_receive<T: Debug + Serialize + DeserializeOwned + 'static>(&mut self) -> Option<T> {
-        // TODO replace Vec<u8> with array when https://github.com/rust-lang/rust/issues/43408
-        // is fixed
-        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-        let available_bytes = self.udp_socket.peek(&mut buffer).ok()?;
-        if available_bytes >= size_of::<T>() {
-            let object: Option<T> = match self.udp_blocking_receive() {
-                Ok(o) => Some(o),
-                Err(_) => None,
-            };
-            return object;
+        loop {
+            match self.udp_receive_datagram() {
+                Ok(object) => return object,
+                Err(UdpReceiveError::WrongSize(_)) => {} // skip it, newer objects may follow
+                Err(UdpReceiveError::Io(_)) => return None,
+            }
         }
-        None
     }
     pub fn udp_blocking_receive<T: Debug + Serialize + DeserializeOwned + 'static>(
         &mut self,
     ) -> FrankaResult<T> {
-        self.poll_read_udp
-            .poll(&mut self.events_udp, Some(self.udp_timeout))
-            .unwrap();
-        for event in self.events_udp.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-                        let read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
-                        while self.udp_socket.recv_from(&mut buffer).is_ok() {}
-                        let read_bytes = match read_bytes_and_address {
-                            Ok(res) => {
-                                self.udp_server_address = res.1;
-                                res.0
-                            }
-                            Err(e) => {
-                                return Err(FrankaException::NetworkException {
-                                    message: e.to_string(),
-                                });
-                            }
-                        };
-                        if read_bytes != size_of::<T>() {
-                            return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
-                        }
-                        return Ok(deserialize(&buffer));
-                    }
+        let deadline = Instant::now() + self.udp_timeout;
+        loop {
+            match self.udp_receive_datagram() {
+                Ok(Some(object)) => return Ok(object),
+                Ok(None) => {}
+                Err(UdpReceiveError::WrongSize(read_bytes)) => {
+                    return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
                 }
-                _ => unreachable!(),
+                Err(UdpReceiveError::Io(e)) => {
+                    return Err(FrankaException::NetworkException {
+                        message: e.to_string(),
+                    });
+                }
+            }
+            let now = Instant::now();
+            if now >= deadline {
+                return Err(FrankaException::NetworkException {
+                    message: "libfranka-rs: UDP receive: timeout".to_string(),
+                });
+            }
+            match self
+                .poll_read_udp
+                .poll(&mut self.events_udp, Some(deadline - now))
+            {
+                Err(e) if e.kind() != ErrorKind::Interrupted => {
+                    return Err(FrankaException::NetworkException {
+                        message: e.to_string(),
+                    });
+                }
+                _ => {}
             }
         }
-        Err(FrankaException::NetworkException {
-            message: "libfranka-rs: UDP receive: timeout".to_string(),
-        })
+    }
+    /// Takes exactly one datagram from the UDP socket without waiting for it. Returns None if there
+    /// is none.
+    fn udp_receive_datagram<T: DeserializeOwned + Debug + 'static>(
+        &mut self,
+    ) -> Result<Option<T>, UdpReceiveError> {
+        // TODO replace Vec<u8> with array when https://github.com/rust-lang/rust/issues/43408
+        // is fixed
+        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
+        let (read_bytes, address) = match self.udp_socket.recv_from(&mut buffer) {
+            Ok(res) => res,
+            Err(e) if e.kind() == ErrorKind::WouldBlock => return Ok(None),
+            Err(e) => return Err(UdpReceiveError::Io(e)),
+        };
+        self.udp_server_address = address;
+        if read_bytes != size_of::<T>() {
+            return Err(UdpReceiveError::WrongSize(read_bytes));
+        }
+        Ok(Some(deserialize(&buffer)))
     }
     pub fn udp_send<T: Debug + Serialize + DeserializeOwned>(
         &mut self,
-- 
2.43.0


From e84a009270bc44679a75b350371a5ea5c61e988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:13 +0000
Subject: [PATCH 02/17] fix: read every merged or large TCP reply and report
 lost connections and signals as errors instead of hanging or panicking

---
 src/gripper.rs                  |  20 ++--
 src/model/library_downloader.rs |   2 +-
 src/network.rs                  | 184 ++++++++++++++++----------------
 src/robot.rs                    |  44 ++++----
 src/robot/robot_impl.rs         |  26 +++--
 5 files changed, 138 insertions(+), 138 deletions(-)

diff --git a/src/gripper.rs b/src/gripper.rs
index ae99df1..22117d4 100644
--- a/src/gripper.rs
+++ b/src/gripper.rs
@@ -51,9 +51,9 @@ impl Gripper {
                 .create_header_for_gripper(Command::Connect, size_of::<ConnectRequestWithHeader>()),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             Status::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -81,8 +81,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Move, size_of::<MoveRequestWithHeader>()),
             request: MoveRequest::new(width, speed),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Performs homing of the gripper.
@@ -99,8 +99,8 @@ impl Gripper {
         let command: HomingRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Homing, size_of::<HomingRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -114,8 +114,8 @@ impl Gripper {
         let command: StopRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Stop, size_of::<StopRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -152,8 +152,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Grasp, size_of::<GraspRequestWithHeader>()),
             request: GraspRequest::new(width, speed, force, epsilon_inner, epsilon_outer),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Waits for a gripper state update and returns it.
diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 5a7b99d..89f3f6e 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -30,7 +30,7 @@ impl LibraryDownloader {
                     system: LoadModelLibrarySystem::Linux,
                 },
             };
-            let command_id: u32 = network.tcp_send_request(command);
+            let command_id: u32 = network.tcp_send_request(command)?;
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
diff --git a/src/network.rs b/src/network.rs
index f11f35f..d15238a 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -8,7 +8,7 @@ extern crate nix;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::{ErrorKind, Read, Write};
+use std::io::{ErrorKind, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
@@ -19,8 +19,9 @@ use std::time::{Duration, Instant};
 use mio::net::{TcpStream, UdpSocket};
 use mio::{Events, Interest, Poll, Token};
 
-use nix::sys::socket::setsockopt;
+use nix::errno::Errno;
 use nix::sys::socket::sockopt::{KeepAlive, TcpKeepCount, TcpKeepIdle, TcpKeepInterval};
+use nix::sys::socket::{recv, setsockopt, MsgFlags};
 
 use serde::de::DeserializeOwned;
 use serde::Serialize;
@@ -57,9 +58,7 @@ pub struct Network {
     udp_timeout: Duration,
     pub command_id: u32,
     pending_response: Vec<u8>,
-    pending_response_offset: usize,
-    pending_response_len: usize,
-    pending_command_id: u32,
+    connection_lost: Option<String>,
     received_responses: HashMap<u32, Vec<u8>>,
     poll_read: Poll,
     events: Events,
@@ -92,8 +91,6 @@ impl Network {
 
         let command_id = 0;
         let pending_response: Vec<u8> = Vec::new();
-        let pending_response_offset = 0;
-        let pending_command_id = 0;
         let received_responses = HashMap::new();
         let poll_read = Poll::new()?;
         poll_read
@@ -114,9 +111,7 @@ impl Network {
             udp_timeout,
             command_id,
             pending_response,
-            pending_response_offset,
-            pending_command_id,
-            pending_response_len: 0,
+            connection_lost: None,
             received_responses,
             poll_read,
             events,
@@ -146,10 +141,12 @@ impl Network {
     pub fn tcp_send_request<T: Serialize + DeserializeOwned + MessageCommand + Debug>(
         &mut self,
         request: T,
-    ) -> u32 {
+    ) -> FrankaResult<u32> {
         let encoded_request = serialize(&request);
-        self.tcp_socket.write_all(&encoded_request).unwrap();
-        request.get_command_message_id()
+        self.tcp_socket
+            .write_all(&encoded_request)
+            .map_err(network_exception)?;
+        Ok(request.get_command_message_id())
     }
     /// Blocks until a Response message with the given command ID has been received and returns this
     /// response.
@@ -159,9 +156,9 @@ impl Network {
     pub fn tcp_blocking_receive_response<T: DeserializeOwned + Debug + 'static>(
         &mut self,
         command_id: u32,
-    ) -> T {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
-        deserialize(&response_bytes)
+    ) -> FrankaResult<T> {
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
+        Ok(deserialize(&response_bytes))
     }
     /// Blocks until a LoadModelLibraryResponse message with the given command ID has been received
     /// and returns this LoadModelLibraryResponse.
@@ -179,7 +176,7 @@ impl Network {
         command_id: u32,
         buffer: &mut Vec<u8>,
     ) -> FrankaResult<LoadModelLibraryResponse> {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
         let lib_response: LoadModelLibraryResponse =
             deserialize(&response_bytes[0..size_of::<LoadModelLibraryResponse>()]);
         match lib_response.status {
@@ -221,10 +218,13 @@ impl Network {
         F: FnOnce(T) -> Result<(), FrankaException>,
         T: DeserializeOwned + Debug + 'static,
     {
-        self.tcp_read_from_buffer(Duration::from_micros(0));
+        self.tcp_read_from_buffer(Duration::from_micros(0))?;
         let message = self.received_responses.get(&command_id);
         if message.is_none() {
-            return Ok(false);
+            return match &self.connection_lost {
+                Some(reason) => Err(network_exception(reason)),
+                None => Ok(false),
+            };
         }
         if message.unwrap().len() != size_of::<T>() {
             panic!("libfranka-rs: Incorrect TCP message size.");
@@ -240,16 +240,17 @@ impl Network {
         }
     }
 
-    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> Vec<u8> {
-        let mut response_bytes: Option<Vec<u8>> = None;
-        while response_bytes == None {
-            {
-                self.tcp_read_from_buffer(Duration::from_millis(10));
-                response_bytes = self.received_responses.remove(command_id);
+    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> FrankaResult<Vec<u8>> {
+        loop {
+            self.tcp_read_from_buffer(Duration::from_millis(10))?;
+            if let Some(response_bytes) = self.received_responses.remove(command_id) {
+                return Ok(response_bytes);
+            }
+            if let Some(reason) = &self.connection_lost {
+                return Err(network_exception(reason));
             }
             std::thread::yield_now();
         }
-        response_bytes.unwrap()
     }
     pub fn udp_receive<T: Debug + Serialize + DeserializeOwned + 'static>(&mut self) -> Option<T> {
         loop {
@@ -333,80 +334,81 @@ impl Network {
         Ok(())
     }
 
-    fn tcp_read_from_buffer(&mut self, timeout: Duration) {
-        self.poll_read
-            .poll(&mut self.events, Some(timeout))
-            .unwrap();
-        for event in self.events.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        let mut buffer = [0_u8; 70000];
-                        let available_bytes = self.tcp_socket.peek(&mut buffer);
-                        let available_bytes = match available_bytes {
-                            Ok(a) => a,
-                            Err(e) => {
-                                eprintln!("{}", e);
-                                return;
-                            }
-                        };
-
-                        if self.pending_response.is_empty() {
-                            let header_mem_size = match self.network_type {
-                                NetworkType::Gripper => size_of::<CommandHeader>(),
-                                NetworkType::Robot => size_of::<RobotCommandHeader>(),
-                            };
-                            if available_bytes >= header_mem_size {
-                                let mut header_bytes: Vec<u8> = vec![0; header_mem_size];
-                                self.tcp_socket.read_exact(&mut header_bytes).unwrap();
-                                self.pending_response.append(&mut header_bytes.clone());
-                                self.pending_response_offset = header_mem_size as usize;
-                                match self.network_type {
-                                    NetworkType::Gripper => {
-                                        let header: CommandHeader = deserialize(&header_bytes);
-                                        self.pending_response_len = header.size as usize;
-                                        self.pending_command_id = header.command_id;
-                                    }
-                                    NetworkType::Robot => {
-                                        let header: RobotCommandHeader = deserialize(&header_bytes);
-                                        self.pending_response_len = header.size as usize;
-                                        self.pending_command_id = header.command_id;
-                                    }
-                                };
-                            }
-                        }
-                        if !self.pending_response.is_empty() && available_bytes > 0 {
-                            let number_of_bytes_to_read = usize::min(
-                                available_bytes,
-                                self.pending_response_len - self.pending_response_offset as usize,
-                            );
-                            let mut response_buffer: Vec<u8> = vec![0; number_of_bytes_to_read];
-                            self.tcp_socket.read_exact(&mut response_buffer).unwrap();
-                            self.pending_response.append(&mut response_buffer);
-                            self.pending_response_offset += number_of_bytes_to_read;
-                            if self.pending_response_offset == self.pending_response_len as usize {
-                                self.received_responses
-                                    .insert(self.pending_command_id, self.pending_response.clone());
-                                self.pending_response.clear();
-                                self.pending_response_offset = 0;
-                                self.pending_command_id = 0;
-                                self.pending_response_len = 0;
-                            }
-                        }
-                    }
-                    if event.is_writable() {
-                        eprintln!("There should not be any writable events")
-                    }
+    /// Waits until there is something to read on the TCP socket or the timeout has passed, reads
+    /// everything which is available and stores all responses which are complete by now.
+    fn tcp_read_from_buffer(&mut self, timeout: Duration) -> FrankaResult<()> {
+        match self.poll_read.poll(&mut self.events, Some(timeout)) {
+            Ok(_) => {}
+            Err(e) if e.kind() == ErrorKind::Interrupted => return Ok(()),
+            Err(e) => return Err(network_exception(e)),
+        }
+        if self.events.is_empty() {
+            return Ok(());
+        }
+        let mut buffer = [0_u8; 70000];
+        loop {
+            match recv(
+                self.tcp_socket.as_raw_fd(),
+                &mut buffer,
+                MsgFlags::MSG_DONTWAIT,
+            ) {
+                Ok(0) => {
+                    self.connection_lost
+                        .get_or_insert("libfranka-rs: server closed connection".to_string());
+                    break;
+                }
+                Ok(read_bytes) => self.pending_response.extend(&buffer[..read_bytes]),
+                Err(nix::Error::Sys(Errno::EAGAIN)) => break,
+                Err(nix::Error::Sys(Errno::EINTR)) => {}
+                Err(e) => {
+                    self.connection_lost.get_or_insert(e.to_string());
+                    break;
+                }
+            }
+        }
+        self.extract_responses()
+    }
+    fn extract_responses(&mut self) -> FrankaResult<()> {
+        let header_mem_size = match self.network_type {
+            NetworkType::Gripper => size_of::<CommandHeader>(),
+            NetworkType::Robot => size_of::<RobotCommandHeader>(),
+        };
+        while self.pending_response.len() >= header_mem_size {
+            let header_bytes = &self.pending_response[..header_mem_size];
+            let (response_len, command_id) = match self.network_type {
+                NetworkType::Gripper => {
+                    let header: CommandHeader = deserialize(header_bytes);
+                    (header.size as usize, header.command_id)
+                }
+                NetworkType::Robot => {
+                    let header: RobotCommandHeader = deserialize(header_bytes);
+                    (header.size as usize, header.command_id)
                 }
-                _ => unreachable!(),
+            };
+            if response_len < header_mem_size {
+                return Err(network_exception(
+                    "libfranka-rs: Incorrect TCP message size.",
+                ));
             }
+            if self.pending_response.len() < response_len {
+                break;
+            }
+            let response = self.pending_response.drain(..response_len).collect();
+            self.received_responses.insert(command_id, response);
         }
+        Ok(())
     }
     pub fn get_udp_port(&self) -> u16 {
         self.udp_port
     }
 }
 
+fn network_exception<E: ToString>(error: E) -> FrankaException {
+    FrankaException::NetworkException {
+        message: error.to_string(),
+    }
+}
+
 fn serialize<T: Serialize>(s: &T) -> Vec<u8> {
     bincode::serialize(s).unwrap()
 }
diff --git a/src/robot.rs b/src/robot.rs
index 05986bf..de89a1e 100644
--- a/src/robot.rs
+++ b/src/robot.rs
@@ -256,11 +256,11 @@ impl Robot {
                 upper_force_thresholds_nominal,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCollisionBehaviorResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -281,11 +281,11 @@ impl Robot {
             ),
             request: SetJointImpedanceRequest::new(K_theta),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetJointImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -308,11 +308,11 @@ impl Robot {
             ),
             request: SetCartesianImpedanceRequest::new(K_x),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCartesianImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Locks or unlocks guiding mode movement in (x, y, z, roll, pitch, yaw).
@@ -334,11 +334,11 @@ impl Robot {
             ),
             request: SetGuidingModeRequest::new(guiding_mode, elbow),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetGuidingModeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -361,11 +361,11 @@ impl Robot {
             ),
             request: SetEeToKRequest::new(EE_T_K),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetEeToKResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -392,11 +392,11 @@ impl Robot {
             ),
             request: SetNeToEeRequest::new(NE_T_EE),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetNeToEeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets dynamic parameters of a payload.
@@ -427,11 +427,11 @@ impl Robot {
             ),
             request: SetLoadRequest::new(load_mass, F_x_Cload, load_inertia),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetLoadResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets the cut off frequency for the given motion generator or controller.
@@ -473,11 +473,11 @@ impl Robot {
                 controller_filter_frequency,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetFiltersResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -492,11 +492,11 @@ impl Robot {
             RobotCommandEnum::AutomaticErrorRecovery,
             size_of::<AutomaticErrorRecoveryRequestWithHeader>(),
         );
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: AutomaticErrorRecoveryResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             AutomaticErrorRecoveryStatus::Success => Ok(()),
             AutomaticErrorRecoveryStatus::EmergencyAborted => Err(create_command_exception(
@@ -535,11 +535,11 @@ impl Robot {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: StopMoveResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match response.status {
             StopMoveStatus::Success => Ok(()),
             StopMoveStatus::CommandNotPossibleRejected | StopMoveStatus::Aborted => {
@@ -571,11 +571,11 @@ impl Robot {
             ),
             request: GetCartesianLimitRequest::new(id),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: GetCartesianLimitResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             GetterSetterStatus::Success => Ok(VirtualWallCuboid::new(id, response)),
             GetterSetterStatus::CommandNotPossibleRejected => Err(create_command_exception(
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 1db48ad..e97904d 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -125,9 +125,9 @@ impl RobotImpl {
             ),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             ConnectStatus::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -264,8 +264,8 @@ impl RobotImpl {
                 *maximum_goal_deviation,
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_move(&response)?;
         Ok(command_id)
     }
@@ -276,8 +276,8 @@ impl RobotImpl {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_stop(&response)?;
         Ok(command_id)
     }
@@ -330,9 +330,7 @@ impl RobotControl for RobotImpl {
                         error: message,
                     });
                 }
-                _ => {
-                    panic!("this should be an command exception but it is not")
-                }
+                Err(error) => return Err(error),
             }
 
             let _robot_state = self.update(None, None)?;
@@ -365,7 +363,7 @@ impl RobotControl for RobotImpl {
             robot_state = Some(self.update(Some(&motion_finished_command), control_command)?);
         }
         let robot_state = robot_state.unwrap();
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id);
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
         if response.status == MoveStatus::ReflexAborted {
             return Err(create_control_exception(
                 String::from("Motion finished commanded, but the robot is still moving!"),
@@ -406,9 +404,9 @@ impl RobotControl for RobotImpl {
         // Ignore Move response.
         // TODO (FWA): It is not guaranteed that the Move response won't come later
 
-        self.network
-            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()))
-            .expect("This should be impossible as the handler always returns Ok(())");
+        let _ = self
+            .network
+            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()));
         self.current_move_motion_generator_mode = MotionGeneratorMode::Idle;
         self.current_move_controller_mode = Some(ControllerMode::Other);
     }
@@ -439,7 +437,7 @@ impl RobotControl for RobotImpl {
             || self.motion_generator_mode.unwrap() != self.current_move_motion_generator_mode
             || self.controller_mode != self.current_move_controller_mode.unwrap()
         {
-            let response = self.network.tcp_blocking_receive_response(motion_id);
+            let response = self.network.tcp_blocking_receive_response(motion_id)?;
             let result = handle_command_response_move(&response);
             return match result {
                 Err(error) => Err(create_control_exception(
-- 
2.43.0


From 6b30bb6760a4fb3f9052578217a2072fd7927233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 03/17] fix: cancelling a motion no longer panics on a rejected
 stop or loops forever on a lost connection

---
 src/robot/robot_impl.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index e97904d..765f42b 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -391,13 +391,16 @@ impl RobotControl for RobotImpl {
         Ok(())
     }
 
-    // TODO exception handling
+    // Errors are ignored because the caller already has the error that led to the cancellation.
     fn cancel_motion(&mut self, motion_id: u32) {
-        self.execute_stop_command()
-            .expect("error while canceling motion"); //todo handle Network exception. But it is not that important since we already have an error anyways
-        let mut _robot_state = self.receive_robot_state();
-        while self.motion_generator_running() || self.controller_running() {
-            _robot_state = self.receive_robot_state();
+        let stop_result = self.execute_stop_command();
+        if !matches!(stop_result, Err(FrankaException::NetworkException { .. })) {
+            let mut robot_state = self.receive_robot_state();
+            while robot_state.is_ok()
+                && (self.motion_generator_running() || self.controller_running())
+            {
+                robot_state = self.receive_robot_state();
+            }
         }
 
         // comment from libfranka devs:
-- 
2.43.0


From 6fe3d72bc07326f0d2bd8523b9f667716bbcfbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 04/17] fix: connecting reports an unknown host or a missing
 first state as an error instead of panicking

---
 src/network.rs          | 5 ++++-
 src/robot/robot_impl.rs | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index d15238a..0c5e441 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -73,7 +73,10 @@ impl Network {
         franka_port: u16,
     ) -> Result<Network, Box<dyn Error>> {
         let address_str: String = format!("{}:{}", franka_address, franka_port);
-        let sock_address = address_str.to_socket_addrs().unwrap().next().unwrap();
+        let sock_address = address_str
+            .to_socket_addrs()?
+            .next()
+            .ok_or("libfranka-rs: could not resolve the address")?;
         let mut tcp_socket = TcpStream::from_std(StdTcpStream::connect(sock_address)?);
         let fd = tcp_socket.as_raw_fd();
 
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 765f42b..802c966 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -112,8 +112,7 @@ impl RobotImpl {
         robot_impl.connect_robot()?;
         let state = robot_impl
             .network
-            .udp_blocking_receive::<RobotStateIntern>()
-            .unwrap();
+            .udp_blocking_receive::<RobotStateIntern>()?;
         robot_impl.update_state_with(&state);
         Ok(robot_impl)
     }
-- 
2.43.0


From 2505765aa6e458d95d56767f6165f2e75c283bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:26 +0000
Subject: [PATCH 05/17] fix: starting a motion while another one is active is
 an error instead of a panic

---
 src/robot/robot_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 802c966..1d11929 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -291,7 +291,10 @@ impl RobotControl for RobotImpl {
         maximum_goal_deviation: &MoveDeviation,
     ) -> FrankaResult<u32> {
         if self.motion_generator_running() || self.controller_running() {
-            panic!("libfranka-rs robot: Attempted to start multiple motions!");
+            return Err(FrankaException::ControlException {
+                log: None,
+                error: String::from("libfranka-rs robot: Attempted to start multiple motions!"),
+            });
         }
         self.current_move_motion_generator_mode = match motion_generator_mode {
             MoveMotionGeneratorMode::JointPosition => MotionGeneratorMode::JointPosition,
-- 
2.43.0


From 08e6be68f31d56ab09012cf1fcbcf42083604198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:32 +0000
Subject: [PATCH 06/17] fix: the control log keeps chronological order, forgets
 earlier motions and works with size zero

---
 src/robot/logger.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index db4fb76..f918a89 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -49,8 +49,6 @@ impl Record {
 pub(crate) struct Logger {
     states: VecDeque<RobotState>,
     commands: VecDeque<RobotCommand>,
-    ring_front: usize,
-    ring_size: usize,
     log_size: usize,
 }
 
@@ -59,26 +57,20 @@ impl Logger {
         Logger {
             states: VecDeque::with_capacity(log_size),
             commands: VecDeque::with_capacity(log_size),
-            ring_front: 0,
-            ring_size: 0,
             log_size,
         }
     }
     pub fn log(&mut self, state: &RobotState, command: &RobotCommand) {
         self.states.push_back(state.clone());
         self.commands.push_back(*command);
-        self.ring_front = (self.ring_front + 1) % self.log_size;
-        if self.ring_size == self.log_size {
+        if self.states.len() > self.log_size {
             self.states.pop_front();
             self.commands.pop_front();
         }
-        self.ring_size = usize::min(self.log_size, self.ring_size + 1);
     }
     pub fn flush(&mut self) -> Vec<Record> {
         let mut out: Vec<Record> = Vec::new();
-        for i in 0..self.ring_size {
-            let index = (self.ring_front + i) % self.ring_size;
-            let cmd = self.commands.get(index).unwrap();
+        for (state, cmd) in self.states.drain(..).zip(self.commands.drain(..)) {
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
                 joint_velocities: JointVelocities::new(cmd.motion.dq_c),
@@ -86,14 +78,8 @@ impl Logger {
                 cartesian_velocities: CartesianVelocities::new(cmd.motion.O_dP_EE_c, None),
                 torques: Torques::new(cmd.control.tau_J_d),
             };
-            let record = Record {
-                state: self.states.get(index).unwrap().clone(),
-                command,
-            };
-            out.push(record);
+            out.push(Record { state, command });
         }
-        self.ring_front = 0;
-        self.ring_size = 0;
         out
     }
 }
-- 
2.43.0


From 13073284ff31f6280dd86ff4d08cf556cc91df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:36 +0000
Subject: [PATCH 07/17] fix: the low-pass filters reject a cutoff frequency of
 zero as documented

---
 src/robot/low_pass_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/low_pass_filter.rs b/src/robot/low_pass_filter.rs
index 8c3ab5f..88b3b11 100644
--- a/src/robot/low_pass_filter.rs
+++ b/src/robot/low_pass_filter.rs
@@ -28,7 +28,7 @@ pub static DEFAULT_CUTOFF_FREQUENCY: f64 = 100.0;
 /// Filtered value.
 pub fn low_pass_filter(sample_time: f64, y: f64, y_last: f64, cutoff_frequency: f64) -> f64 {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     assert!(y.is_finite() && y_last.is_finite());
     let gain = sample_time / (sample_time + (1.0 / (2.0 * PI * cutoff_frequency)));
     gain * y + (1. - gain) * y_last
@@ -57,7 +57,7 @@ pub fn cartesian_low_pass_filter(
     cutoff_frequency: f64,
 ) -> [f64; 16] {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     y.iter()
         .zip(y_last.iter())
         .for_each(|(i, j)| assert!(i.is_finite() && j.is_finite()));
-- 
2.43.0


From b0b52ab746dc230dc79d9fb01ffd83687ac259be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:39 +0000
Subject: [PATCH 08/17] fix: coriolis_from_state uses the total inertia instead
 of the load inertia

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 191fc13..b561c95 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -347,7 +347,7 @@ impl Model {
         self.coriolis(
             &robot_state.q,
             &robot_state.dq,
-            &robot_state.I_load,
+            &robot_state.I_total,
             robot_state.m_total,
             &robot_state.F_x_Ctotal,
         )
-- 
2.43.0


From 023d7462cb4e3f2eeccb71847140d76ce0f69e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:43 +0000
Subject: [PATCH 09/17] fix: the text of an empty error set has its closing
 bracket

---
 src/robot/errors.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/robot/errors.rs b/src/robot/errors.rs
index 8b2d077..55143d8 100644
--- a/src/robot/errors.rs
+++ b/src/robot/errors.rs
@@ -51,15 +51,11 @@ impl fmt::Display for FrankaErrors {
         write!(f, "[")?;
         let mut iter = self.franka_errors.iter().peekable();
         while let Some(error) = iter.next() {
-            match iter.peek() {
-                Some(_) => {
-                    write!(f, "\"{}\", ", error)?;
-                }
-                None => {
-                    return write!(f, "\"{}\"]", error);
-                }
+            write!(f, "\"{}\"", error)?;
+            if iter.peek().is_some() {
+                write!(f, ", ")?;
             }
         }
-        Ok(())
+        write!(f, "]")
     }
 }
-- 
2.43.0


From 1fe4404e177624acefc43be9d4c981fccadb039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:36 +0000
Subject: [PATCH 10/17] fix: pose conversion and limiting are correct for
 half-turn rotations

---
 src/robot/rate_limiting.rs | 9 +++++----
 src/utils.rs               | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index a621576..444b0c4 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -5,8 +5,7 @@
 //! joint position and joint velocity.
 
 use nalgebra::{
-    Isometry3, Matrix3, Matrix3x1, Matrix6x1, Rotation3, Translation3, UnitQuaternion, Vector3, U1,
-    U3,
+    Isometry3, Matrix3, Matrix3x1, Matrix6x1, Rotation3, Translation3, Vector3, U1, U3,
 };
 
 use crate::robot::control_tools::is_homogeneous_transformation;
@@ -356,8 +355,10 @@ pub fn limit_rate_cartesian_pose(
         let R = Matrix3::identity()
             + f64::sin(theta) * omega_skew
             + (1. - f64::cos(theta)) * (omega_skew * omega_skew);
-        limited_commanded_pose.rotation =
-            UnitQuaternion::from_matrix(&(R * last_commanded_pose.rotation.to_rotation_matrix()));
+        let mut limited_rotation =
+            Rotation3::from_matrix_unchecked(R * last_commanded_pose.rotation.to_rotation_matrix());
+        limited_rotation.renormalize();
+        limited_commanded_pose.rotation = limited_rotation.into();
     }
     let mut limited_values = [0.; 16];
     for (i, &x) in limited_commanded_pose.to_homogeneous().iter().enumerate() {
diff --git a/src/utils.rs b/src/utils.rs
index a6136ae..b74eb54 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,11 +9,12 @@ use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
-    let rot = Rotation3::from_matrix(
-        &Matrix4::from_column_slice(array)
+    let mut rot = Rotation3::from_matrix_unchecked(
+        Matrix4::from_column_slice(array)
             .remove_column(3)
             .remove_row(3),
     );
+    rot.renormalize();
     Isometry3::from_parts(
         Vector3::new(array[12], array[13], array[14]).into(),
         rot.into(),
-- 
2.43.0


From 09317688b72a4759f62b83254adeedd8769358d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:40 +0000
Subject: [PATCH 11/17] fix: a model library is written completely or not at
 all

---
 src/model/library_downloader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 89f3f6e..c2d4cc2 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -10,7 +10,7 @@ use crate::FrankaResult;
 use std::fmt;
 use std::fmt::Display;
 use std::fmt::Formatter;
-use std::fs::File;
+use std::fs::{remove_file, File};
 use std::io::Write;
 use std::mem::size_of;
 use std::path::Path;
@@ -37,8 +37,12 @@ impl LibraryDownloader {
             let mut file = File::create(download_path).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
-            file.write(&buffer).map_err(|_| ModelException {
-                message: "Error writing model to disk:".to_string(),
+            file.write_all(&buffer).map_err(|_| {
+                // an incomplete library must not be found by a later call
+                let _ = remove_file(download_path);
+                ModelException {
+                    message: "Error writing model to disk:".to_string(),
+                }
             })?;
             Ok(())
         } else {
-- 
2.43.0


From ccc593031bb4cf699202b001672c7e192eb7395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:45 +0000
Subject: [PATCH 12/17] fix: load_model deletes the file it downloaded unless
 it is persistent and reports failures as errors

---
 src/network.rs          |  9 +++++----
 src/robot/robot_impl.rs | 10 ++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 0c5e441..44fa071 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -191,10 +191,11 @@ impl Network {
                 });
             }
         }
-        assert_ne!(
-            lib_response.header.size as usize,
-            size_of::<LoadModelLibraryResponse>()
-        );
+        if response_bytes.len() == size_of::<LoadModelLibraryResponse>() {
+            return Err(FrankaException::ModelException {
+                message: "libfranka-rs: Server sent an empty model library.".to_string(),
+            });
+        }
         buffer.append(&mut Vec::from(
             &response_bytes[size_of::<LoadModelLibraryResponse>()..],
         ));
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 1d11929..f841f30 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -235,11 +235,13 @@ impl RobotImpl {
         if !model_already_downloaded {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
-        let model = Model::new(model_file, None)?;
-        if !persistent && model_already_downloaded {
-            remove_file(model_file).expect("Could not delete file");
+        let model = Model::new(model_file, None);
+        if !model_already_downloaded && (!persistent || model.is_err()) {
+            remove_file(model_file).map_err(|_| FrankaException::ModelException {
+                message: "libfranka-rs: Could not delete the model file".to_string(),
+            })?;
         }
-        Ok(model)
+        model
     }
     pub fn server_version(&self) -> u16 {
         self.ri_version.unwrap()
-- 
2.43.0


From 4ce3db22fde2e74575439e5afb3e62532ecab8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:19 +0000
Subject: [PATCH 13/17] fix: pose limiter turns towards requests that are half
 a turn away

---
 src/robot/rate_limiting.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index 444b0c4..fbc1e52 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -306,12 +306,7 @@ pub fn limit_rate_cartesian_pose(
     let dx_head =
         (commanded_pose.translation.vector - last_commanded_pose.translation.vector) / DELTA_T;
 
-    let mut rot_diff: Rotation3<f64> = commanded_pose.rotation.to_rotation_matrix()
-        * last_commanded_pose
-            .rotation
-            .to_rotation_matrix()
-            .transpose();
-    rot_diff.renormalize();
+    let rot_diff = commanded_pose.rotation * last_commanded_pose.rotation.inverse();
     let dx_tail = rot_diff.scaled_axis() / DELTA_T;
 
     let mut commanded_O_dP_EE_c = [0.; 6];
-- 
2.43.0


From b56f68a00e6cd8e5b8c9287482f6c1fac4602bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:56 +0000
Subject: [PATCH 14/17] fix: Cartesian limiter keeps the speed bound when
 rounding puts the speed at it

---
 src/robot/rate_limiting.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index fbc1e52..0bb6feb 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -442,10 +442,11 @@ fn limit_rate_single_cartesian_velocity(
     let unit_commanded_acceleration: Matrix3x1<f64> = commanded_acceleration.normalize();
     let dot_product = unit_commanded_acceleration.dot(last_commanded_velocity);
     let distance_to_max_velocity = -dot_product
-        + f64::sqrt(
+        + f64::sqrt(f64::max(
             f64::powf(dot_product, 2.) - last_commanded_velocity.norm_squared()
                 + f64::powf(max_velocity, 2.),
-        );
+            0.,
+        ));
     let safe_max_acceleration = f64::min(
         (max_jerk / max_acceleration) * distance_to_max_velocity,
         max_acceleration,
-- 
2.43.0


From 274d43f33a9989fadc914c12ac21efc9fdd46fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:55 +0000
Subject: [PATCH 15/17] fix: converting an invalid pose terminates

---
 src/utils.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index b74eb54..d89a09b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -4,17 +4,20 @@
 //! contains useful type definitions and conversion functions.
 use crate::robot::control_types::{Finishable, JointPositions};
 use crate::robot::robot_state::RobotState;
-use nalgebra::{Isometry3, Matrix4, MatrixMN, MatrixN, Rotation3, Vector3, VectorN, U6, U7};
+use nalgebra::{
+    Isometry3, Matrix4, MatrixMN, MatrixN, Rotation3, UnitQuaternion, Vector3, VectorN, U6, U7,
+};
 use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
-    let mut rot = Rotation3::from_matrix_unchecked(
-        Matrix4::from_column_slice(array)
-            .remove_column(3)
-            .remove_row(3),
-    );
-    rot.renormalize();
+    let matrix = Matrix4::from_column_slice(array)
+        .remove_column(3)
+        .remove_row(3);
+    let mut guess = UnitQuaternion::from(Rotation3::from_matrix_unchecked(matrix));
+    guess.renormalize();
+    // bounded, as the search for the nearest rotation does not converge for every matrix
+    let rot = Rotation3::from_matrix_eps(&matrix, f64::EPSILON, 100, guess.into());
     Isometry3::from_parts(
         Vector3::new(array[12], array[13], array[14]).into(),
         rot.into(),
-- 
2.43.0


From 5ce716df2cd8b3342f50acb8b2f156d0e9c0037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:38 +0000
Subject: [PATCH 16/17] fix: decide from the newest waiting state whether a
 motion can be started

---
 src/robot/robot_impl.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index f841f30..f11513a 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -170,6 +170,14 @@ impl RobotImpl {
         self.update_state_with(&latest_accepted_state.unwrap());
         Ok(latest_accepted_state.unwrap())
     }
+    /// Takes over the newest of the robot states which already arrived, without waiting for one.
+    fn take_over_waiting_states(&mut self) {
+        while let Some(state) = self.network.udp_receive::<RobotStateIntern>() {
+            if state.message_id > self.message_id {
+                self.update_state_with(&state);
+            }
+        }
+    }
     fn send_robot_command(
         &mut self,
         motion_command: Option<&MotionGeneratorCommand>,
@@ -292,6 +300,7 @@ impl RobotControl for RobotImpl {
         maximum_path_deviation: &MoveDeviation,
         maximum_goal_deviation: &MoveDeviation,
     ) -> FrankaResult<u32> {
+        self.take_over_waiting_states();
         if self.motion_generator_running() || self.controller_running() {
             return Err(FrankaException::ControlException {
                 log: None,
-- 
2.43.0


From b7c7b3e29aa947fd6dc4273edb8d06573848101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:24 +0000
Subject: [PATCH 17/17] fix: do not reserve memory for arbitrarily large logs

Robot::new reserved memory for the whole requested log in advance, so a very
large log size (usize::MAX, to keep everything) panicked with a capacity
overflow instead of connecting.
---
 src/robot/logger.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index f918a89..20501d2 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -52,11 +52,15 @@ pub(crate) struct Logger {
     log_size: usize,
 }
 
+/// Number of records for which memory gets reserved in advance. Bigger logs grow on demand.
+const MAX_RESERVED_RECORDS: usize = 1000;
+
 impl Logger {
     pub fn new(log_size: usize) -> Self {
+        let reserved = log_size.min(MAX_RESERVED_RECORDS);
         Logger {
-            states: VecDeque::with_capacity(log_size),
-            commands: VecDeque::with_capacity(log_size),
+            states: VecDeque::with_capacity(reserved),
+            commands: VecDeque::with_capacity(reserved),
             log_size,
         }
     }
-- 
2.43.0

