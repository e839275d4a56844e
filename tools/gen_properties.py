import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=mech,observe_at=observe,hook_needed=False)))
RI="src/robot/robot_impl.rs";CL="src/robot/control_loop.rs";NW="src/network.rs";RB="src/robot.rs";ST="src/robot/service_types.rs";TY="src/robot/types.rs";CT="src/robot/control_types.rs"
obs=["bytes, datagrams and options the process hands to the operating system","results, panics and callback invocations seen by the caller"]
p("C01","Every robot service call emits exactly its own request, with a fresh id",
 "Each robot service call (collision behavior, impedances, guiding mode, K and EE frames, load, filters, error recovery, stop, virtual wall query, connect, default behavior) writes to the command connection exactly one request per command: the protocol's packed little-endian encoding of that command with every argument bit-exactly in its place and a size field equal to the number of bytes. Command ids are never reused on a connection. This holds for every argument value, every order of calls and however the operating system splits or interrupts the writes.",
 ["inputs","histories","fault_sequences"],"all service calls x distinguishable argument values, all call sequences up to the depth bound, all short-write/interrupt patterns within the deviation bound",
 "The suite checks one request per command against the library's own serializer, so a symmetric layout error, an argument swap between equal-typed fields, an id reuse after a longer sequence, or a partial write is invisible to it.",
 [RB,RI,ST,NW],["request structs serialized with bincode, header created from a per-connection counter, blocking write of the whole request"],obs)
p("C02","Replies reach their own call however the TCP stream is cut, merged or ordered",
 "Every blocking command call returns as soon as the complete reply carrying its own command id has arrived, with exactly that reply's content, no matter how the byte stream is segmented, how replies are merged into one segment, in which order replies to different commands arrive, or whether a wait is interrupted by a signal. A reply is never lost, applied to another command, or delivered before it is complete - not even if the connection ends right behind it -, and extra replies do not disturb later calls.",
 ["schedules","histories","inputs"],"all segmentations of the reply stream within the cut bound, all merges/orders of up to three replies, interrupts at any wait",
 "The mock server answers every request with one whole write before the client reads, so there is a single segmentation and order; partial headers, merged replies and out-of-order ids never occur.",
 [NW],["edge-triggered readiness, peek, header-then-body reassembly, map from command id to pending reply"],obs)
p("C03","Each reply status yields exactly the documented result of the call",
 "For every robot command and every status the protocol defines for it, the call succeeds exactly for the success status and otherwise returns a command error whose message identifies that status (user stop, reflex, not possible in the current mode, invalid argument, manual recovery required, aborted; an aborted stop request is reported as not possible). A successful virtual wall query returns exactly the transmitted id, frame, dimensions and activity flag. A failed call has no other effect: the next call on the same connection behaves as if the failed one had not happened.",
 ["inputs","histories"],"every command x every defined status, followed by every other command; virtual wall contents over distinguishable field values",
 "The tests exercise two or three statuses of a few commands and never a call after a rejected one.",
 [RB,RI,ST,"src/robot/virtual_wall_cuboid.rs"],["status enums decoded from one byte, per-command mapping to results"],obs)
p("C04","Robot states handed out are whole, never older, and the newest available",
 "Every robot state given to the caller or to a callback is the content of exactly one datagram sent by the robot and has a strictly larger message number than every state given out before on that connection; of the datagrams already waiting when a control or read loop looks for its next state, the newest is used. This holds for any loss, duplication, reordering, bursts and truncation of datagrams. The read loop calls its callback once per state until the callback returns false and not afterwards; a single read waits for a state that arrives after the call.",
 ["histories","schedules","fault_sequences"],"all delivery histories (loss, duplication, reordering, bursts, truncated packets, arrival before/after each receive) over windows of up to five datagrams",
 "The mock server sends in-order, well-spaced datagrams; reordering, duplicates, bursts and truncated packets are never produced.",
 [NW,RI,RB],["datagrams drained from the socket, message-number comparison, last accepted number kept per connection"],obs)
p("C05","Every field of a received state appears unchanged in the public state",
 "For every content of a state datagram each published state value equals the transmitted one: all joint, Cartesian, elbow, torque, wrench, contact, collision, inertia and frame quantities bit-exactly, each error flag under its own name in the current and in the last-motion error sets, the robot mode, the success rate, and the time in milliseconds equal to the message number. The combined load mass, center of mass and inertia are the exact combination of end-effector and load values (zero center of mass and inertia when the respective masses are zero).",
 ["inputs"],"each of the fields distinguished individually, every single flag and mode, a grid of mass/center/inertia combinations including zero masses",
 "The tests round-trip the library's own struct through its own serializer, so swapped or shifted fields go unnoticed; only a few load combinations are compared.",
 [TY,"src/robot/robot_state.rs","src/robot/error.rs","src/robot/errors.rs"],["packed datagram layout, conversion into the public state, combination of inertial parameters"],obs)
p("C06","Control loops follow the motion protocol step by step to a confirmed finish",
 "A control call requests exactly the motion type and controller it stands for (with the default deviation limits), invokes the callback only once the robot reports that motion and controller active, and transmits exactly one command per control cycle, carrying the message number of the state the callback was given and only the values of that cycle. The first callback sees a zero time step and each later one exactly the robot time between consecutive given states. After the callback signals completion it is not called again, its last command is repeated with the finished flag set (never set before) for every state until the robot reports the motion ended (no motion generator and no external controller active), and the call returns Ok only if the robot then confirms success.",
 ["schedules","histories","configurations"],"all nine control calls x controller modes x callback lengths x robot timing choices (start latency, lost states, order of reply and state, finish latency) within the deviation bound",
 "The control loop is only tested against a mocked robot with two canned runs; start latency, lost states, reply/state order and finish latency never vary.",
 [CL,RI,RB,CT],["start handshake, state/command alternation, finish handshake"],obs)
p("C07","Rejected, aborted or preempted motions end as control errors and are stopped",
 "If the robot rejects, aborts or preempts a motion at any point - at start, between any two cycles or while finishing - with any defined status, the control call returns a command or control error naming that status (for a reflex also the errors that aborted the motion - the last-motion error flags of the state - and the recent command success rate), never Ok, a panic or a hang. Once the abort is visible to the library no further motion command is sent, a stop request is issued for a motion that had started, and the error returned is the original one even if that stop request itself is rejected or aborted.",
 ["schedules","fault_sequences","histories"],"every abort status x every abort point x every order of the aborting reply and state x every stop-request status, for all control calls",
 "The tests contain no abort at all over the network; the mocked control loop covers one error path.",
 [CL,RI],["motion error detection from the state, blocking wait for the reply, cancellation"],obs)
p("C08","A connection stays usable and clean after every way a motion can end",
 "After any sequence of control, read and service calls, each ending normally or with an error reported by the robot, the next call on the same connection behaves as on a fresh connection once the robot reports being idle: motions can be started again, the callback again sees a zero first time step, and no reply, command, finished flag or mode of an earlier motion leaks into a later one. A control call that fails after its motion had started returns only once the robot reports idle (or the connection fails), whatever the robot answers to the stop request, so the next motion can be started at once. Starting a motion while the robot reports another motion active is refused with an error and without sending anything.",
 ["histories","configurations"],"all sequences up to the depth bound over {successful motion, aborted motion, rejected motion, preempted motion, read, service call, failed service call} x motion types",
 "Each test opens a new connection and performs one kind of call.",
 [RI,CL,NW],["per-connection mode, id and reply bookkeeping reset at the end of each motion"],obs)
p("C09","Lost connections and silence become network errors in bounded time",
 "If at any point the robot or gripper falls silent on the state channel, closes or resets the command connection, refuses it, or the operating system reports an error on a send or receive, the pending call returns a network error within a bounded time, and so does every later call that needs the dead channel; it never hangs, panics or reports success. Silence longer than the one second receive timeout is reported by state reads and control loops, and a signal interrupting a system call is not an error. When only the state channel fails while a motion runs, the robot is still told to stop.",
 ["fault_sequences","crash_points"],"the fault (silence, end-of-stream, reset, refused, send error, interrupt) injected at every system call of every call type, singly and in pairs",
 "No test breaks a connection after it was established.",
 [NW,RI,CL,RB,"src/gripper.rs"],["poll timeouts, error returns of socket calls, propagation through command and control code"],obs)
p("C10","No invalid motion or torque command is ever transmitted",
 "Whatever a callback returns and whatever the filter and limiter settings are, no command with a NaN or infinite value, with a pose whose rotation rows and columns are not unit vectors (to 1e-5) or whose last row is not (0,0,0,1), or with an elbow sign other than plus or minus one is ever sent; the control call ends (by the documented panic) before sending it. Valid commands never trigger this.",
 ["inputs","configurations"],"every component of every command type replaced by each of NaN/infinities/extreme finite values/invalid poses/elbows, at the first, a middle and the finishing cycle, x limiter x filter settings",
 "The tests never feed non-finite or malformed commands through the control loop.",
 [CT,CL,"src/robot/control_tools.rs","src/robot/rate_limiting.rs","src/robot/low_pass_filter.rs"],["finite and homogeneous-matrix assertions after filtering and limiting"],obs)
p("C11","Limited joint commands respect velocity, acceleration and jerk bounds",
 "With rate limiting on, for any sequence of finite callback outputs, the joint positions or velocities sent to a robot that starts at rest and tracks its commands keep every joint's velocity, acceleration and jerk within the published per-joint limits at all times. For any previously commanded position, velocity and acceleration within the limits, the next command keeps velocity and acceleration within the limits and is the reachable value closest to the requested one. Requests already within the limits are passed on unchanged.",
 ["inputs","histories"],"all request sequences over an alphabet of extreme/boundary/in-range values up to the depth bound in closed loop, plus a grid of previous velocity/acceleration x request for every joint",
 "Joint limits have no test at all; a handful of single Cartesian steps are checked.",
 ["src/robot/rate_limiting.rs",CT],["jerk clamp, acceleration clamp shrinking towards the velocity limit, per-joint limits"],obs)
p("C12","Limited Cartesian and elbow commands respect their bounds",
 "With rate limiting on, for any sequence of finite callback outputs, the Cartesian poses or velocities and elbow positions sent to a robot that starts at rest and tracks its commands keep translational and rotational speed and acceleration and elbow speed, acceleration and jerk within the published limits, always form a valid pose, and stay put when the request equals the last command. Requests already within the limits are passed on unchanged up to rounding. This holds for every orientation, including half-turn rotations.",
 ["inputs","histories"],"all request sequences over an alphabet of translations, rotations (including half turns and every axis), twists and elbow values up to the depth bound in closed loop",
 "The tests check single steps along one axis near the identity orientation.",
 ["src/robot/rate_limiting.rs",CT,"src/utils.rs"],["twist from pose difference, norm-based clamps, re-integration into a pose"],obs)
p("C13","Limited torque commands never jump more than the torque-rate bound",
 "With rate limiting on, every torque transmitted in answer to a torque callback differs from the robot's last commanded torque of that joint by at most the published torque rate times one millisecond, moves towards the requested torque, and equals it when it is within reach; with limiting off it is not altered. This holds for all joints independently and for every torque control call.",
 ["inputs","configurations"],"all seven joints x grid of previous torques x grid of requests x control calls x limiter/filter settings",
 "There is no test of torque limiting.",
 ["src/robot/rate_limiting.rs",CL],["per-joint derivative clamp against the reported desired torque"],obs)
p("C14","Unfiltered, unlimited commands are transmitted bit-exactly in their own fields",
 "With limiting off and the filter disabled, every value a callback returns arrives bit-exactly in the command field belonging to its motion type, in column-major order for poses; all other fields are zero, the elbow is marked valid exactly when one was given, and torques are zero when no torque callback is used. With default settings limiting is on and the filter runs at 100 Hz. The commands of both callbacks of one cycle travel in the same datagram.",
 ["inputs","configurations"],"every control call x distinguishable values in every component x elbow given/not given, switching between cycles, x explicit/default settings",
 "The network tests never run a control loop, so the command layout is untested.",
 [TY,CT,CL,RB],["conversion of callback output into the packed command datagram"],obs)
p("C15","The command filter is the documented first-order low pass",
 "With a cutoff frequency below the maximum, each transmitted scalar equals g*request+(1-g)*last with g=dt/(dt+1/(2*pi*fc)), dt=1 ms, where last is the robot's reported last commanded value of the same quantity, for joint positions, joint velocities, Cartesian velocities, elbow and torques; at or above the maximum the request is untouched. Poses are filtered with the same gain on the translation and by rotating that fraction of the way along the shortest arc, for every pair of orientations. The public filter functions reject negative, zero, infinite or NaN cutoffs, negative or non-finite sample times and non-finite signals by panicking.",
 ["inputs","configurations"],"grid of cutoffs x requests x last values for every component of every command type; orientation pairs including half turns; all invalid argument combinations",
 "Two numeric samples per function are tested, none through the control loop.",
 ["src/robot/low_pass_filter.rs",CT,CL,"src/utils.rs"],["gain computation, choice of the reported last command per quantity, slerp"],obs)
p("C16","Generated joint motions are bounded, synchronized and end at the goal",
 "For every start, goal and speed factor in (0,1] and every sequence of time steps, the motion generator starts at the robot's desired position, moves every joint monotonically without overshoot within its speed-scaled velocity and acceleration limits, finishes all joints together in finite time exactly at the goal, and reports finished only then. Distances up to 1e-6 rad count as reached. The point-to-point motion call drives the robot to the goal with these commands (rate limited) and returns Ok; a start equal to the goal finishes at once.",
 ["inputs","histories"],"grid of start/goal displacements per joint (zero, tiny, short, long, mixed signs) x speed factors x step patterns incl. lost packets",
 "One trajectory is compared at a few time points.",
 ["src/utils.rs",RB],["synchronized trapezoid-like profile with per-joint phases"],obs)
p("C17","A control error carries the true last commands and states, in order",
 "The log in a control error raised while a motion runs consists of exactly the last N command/state pairs of that motion in chronological order, where N is the smaller of the configured log size (50 by default) and the number of commands sent: each row has the command values as transmitted (the elbow is not logged) and the next state received after it. Nothing from an earlier motion appears, and every log size including zero works. The success rate and the number of lost packets reported for a reflex are those of the last two logged states.",
 ["histories","configurations"],"log sizes 0..4 and default x numbers of cycles below, at and beyond wrap-around x abort kinds x one or two motions on the same connection",
 "The logger has no test.",
 ["src/robot/logger.rs",RI],["bounded queues of states and commands, flushed at start and on error"],obs)
p("C18","Model queries call the right library function with the right arguments",
 "For every frame and every model query, the value returned is the one computed by the robot's model library function for that frame and quantity, called with exactly the caller's joint positions, velocities, frame transforms and inertial parameters in the documented order; the variants taking a robot state use the state's measured positions and velocities, its frames and its total (end effector plus load) inertial parameters, and gravity defaults to (0,0,-9.81) where it is an explicit argument and to the state's base acceleration where it is derived from a state.",
 ["inputs","configurations"],"all 10 frames x all queries x both variants with distinguishable argument values",
 "No test loads a model library.",
 ["src/model.rs","src/model/model_library.rs"],["symbol table of the shared library, frame dispatch, composition of transforms"],obs)
p("C19","Model download and loading is complete, or reported as an error",
 "Loading the model asks the robot for the library for this platform, stores exactly the bytes received (whatever their number and segmentation and however the file writes are split), loads them, and leaves a file behind exactly as the persistence argument demands; an already present library is used without a download. A server error, a short or failing write, a deletion that fails, or an unloadable or incomplete library is reported as a model or network error without a panic and without a usable half-loaded model.",
 ["fault_sequences","histories","configurations"],"library sizes around buffer limits x segmentations x file present/absent x persistent or not x every fault in create/write/load/symbol lookup",
 "Nothing about model download is tested.",
 ["src/model/library_downloader.rs","src/model/model_library.rs",RI,NW],["request for the library, variable-length reply, file creation, dynamic loading"],obs)
p("C20","Connecting performs one correct handshake or fails with the right error",
 "Creating a robot or gripper resolves the host, connects to the protocol's port, enables keep-alive probing, announces the library's protocol version and the UDP port it really listens on, and succeeds only after the server accepted and (robot) a first state arrived; the reported server version is the server's. An incompatible version is reported with both version numbers, every other failure (unknown host, refused, lost, silent) as a network error, never a panic or hang. In every case, and when the object is dropped, all operating system resources are released.",
 ["fault_sequences","configurations"],"robot and gripper x every failure at every step of the handshake x all server versions of a small set",
 "Success and one incompatible version are tested; no other failure.",
 [NW,RI,"src/gripper.rs",RB],["address resolution, socket setup, connect request/response, first state"],obs)
p("C21","Gripper commands are sent, matched and reported faithfully",
 "Each gripper call (homing, move, grasp, stop) sends exactly one request with the protocol encoding of its arguments (grasp tolerances default to 0.005) and a fresh id, and returns true on success, false when the gripper reports it was unsuccessful, and a command error when it failed or was aborted, for every order of calls and every segmentation, merge and order of replies.",
 ["inputs","histories","schedules"],"all calls x all statuses x argument values x sequences up to the depth bound x reply segmentations",
 "The gripper tests cover one call each with whole replies (and are unreliable here).",
 ["src/gripper.rs","src/gripper/types.rs",NW],["packed requests, status mapping, reply reassembly with the gripper header"],obs)
p("C22","Gripper states are decoded faithfully and are fresh",
 "Reading the gripper state returns, bit-exactly and field by field, the content of one whole datagram that was not already waiting before the call, with the time in milliseconds equal to its message number; truncated packets never become states and silence becomes a network error.",
 ["inputs","histories","fault_sequences"],"distinguishable values in every field x delivery histories (stale, burst, duplicates, truncated, silence)",
 "One read of one state is tested.",
 ["src/gripper.rs","src/gripper/gripper_state.rs","src/gripper/types.rs",NW],["datagram layout, discarding of waiting datagrams, blocking receive"],obs)
p("C23","Realtime enforcement is checked before any motion is requested",
 "With realtime enforcement (the default), a control call that finds no realtime kernel, or fails to obtain the maximum priority, set the scheduler or lock memory, returns a realtime error before any request or command is sent and leaves the connection usable; when all succeed, the calling thread was given FIFO scheduling one below the maximum priority and all memory was locked. With enforcement ignored none of this is attempted and motions run regardless.",
 ["configurations","fault_sequences"],"kernel present/absent x each privileged call succeeding/failing x enforce/ignore/default x all control calls",
 "Tests always ignore realtime, since the outcome depends on the machine.",
 [CL,"src/robot/control_tools.rs",RB],["existence of the realtime marker, scheduler and memory calls"],obs)
p("C24","Pose conversions are faithful for every rigid transform",
 "Converting a column-major homogeneous matrix to an isometry and back (also through the Cartesian pose type) reproduces the matrix up to rounding for every rotation and translation, including half turns, and slightly non-orthonormal rotations give the nearest rotation. Pose commands given as arrays, isometries or vectors denote the same command, and the completion helper sets the finished mark without altering the values.",
 ["inputs"],"all rotations of a fine grid over axis and angle including exact half turns, translations, and small perturbations; every command type's conversions",
 "One rotation is tested.",
 ["src/utils.rs",CT],["matrix to rotation conversion, nalgebra conversions"],obs)
p("C25","Error reports name exactly the active error conditions",
 "For every combination of error flags the textual form of an error set is a bracketed list of exactly the active conditions, each under its own documented name, in protocol order, and an empty bracketed list when none is active; asking the set for a condition answers true exactly for the active ones.",
 ["inputs"],"no flag, every single flag, every pair of flags, all flags, in current and last-motion sets",
 "No test formats an error set.",
 ["src/robot/error.rs","src/robot/errors.rs","src/robot/robot_state.rs"],["boolean array to error kinds to text"],obs)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
