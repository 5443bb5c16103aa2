"""Statements of the properties: source of properties.jsonl and MANIFEST.json (bin/gen)."""
META = {}
NA = {}
def M(pid, title, statement, over, qtext, why, files, mech, note, level="other", technique="CBMC code contracts on the real C functions"):
    META[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, level=level, technique=technique)
D = "scantool/"
I, H, CF, FA = "inputs", "histories", "configurations", "fault_sequences"

M("C01", "Message objects are created, copied and released whole",
  "A new message of a permitted size has that many zeroed bytes and no successor, a request above the permitted size or without memory gives none. A copy of a message or of a chain has equal contents and order and shares no storage with the original, and a copy that cannot be completed leaves nothing allocated. Releasing a chain releases every message and data block exactly once.",
  [I, FA], "every size, content, chain and every allocation that may fail", "The test duplicates one hand-made chain; allocation failure and sizes at the limit are never exercised.",
  [D + "diag_general.c"], [("diag_allocmsg, diag_dupsinglemsg, diag_dupmsg, diag_freemsg", D + "diag_general.c"), ("diag_fl_alloc", D + "diag_general.c")],
  "Single-message functions proved for all sizes up to the maximum message length; chain functions bounded to chains of at most 3 messages.")
M("C02", "The additive checksum is the sum of all bytes modulo 256",
  "For every buffer and length, the checksum of a frame equals the sum of exactly its bytes modulo 256, and computing it changes nothing.",
  [I], "every buffer content and length", "Tests see a handful of frames.", [D + "diag_general.c"], [("diag_cks1", D + "diag_general.c")],
  "Loop invariant and frame proved by cvc5 for all lengths up to 4200 and all contents.", "proof")
M("C03", "ISO 14230 requests are framed exactly as the session and length demand",
  "Every request handed to an ISO 14230 session leaves as one frame: a format byte, addresses and length byte chosen by the session's key bytes and the payload length, then the unchanged payload, then the checksum of all of it unless the interface adds it; an interface that frames by itself gets only the payload. A payload that the negotiated header cannot describe is refused and nothing is sent, and the minimum pause before a request is respected.",
  [I, CF], "every payload, length, address, session mode and interface capability", "Tests replay fixed requests in one header mode.",
  [D + "diag_l2_iso14230.c"], [("dl2p_14230_send", D + "diag_l2_iso14230.c")],
  "Proved with frame condition for all payload lengths up to the maximum message length, all modes and flags; the checksum function is used by its contract (C02).", "proof")
M("C04", "ISO 14230 reception delivers exactly the well-formed frames received",
  "Whatever bytes arrive and however they are divided into reads, every well-formed frame is delivered once, in order, with its payload, addresses and addressing mode, and is marked bad exactly when its checksum is wrong. Malformed input, a line error or lack of memory yields an error, delivers nothing and leaves nothing queued for a later reception. Reception ends on the inter-byte, inter-message and response time-outs of the session.",
  [I, H, FA], "every byte content, segmentation, interface capability and failure point", "Tests replay a few recorded exchanges; contents and segmentations are unbounded.",
  [D + "diag_l2_iso14230.c"], [("dl2p_14230_recv, dl2p_14230_int_recv, dl2p_14230_decode", D + "diag_l2_iso14230.c")],
  "The frame decoder is proved for all lengths and contents; the reception loop is bounded to 21 segmentations with arbitrary bytes.")
M("C05", "ISO 14230 requests follow response-pending and busy-repeat rules",
  "A request returns the first final response received: a positive one without error, a negative one flagged as refused by the ECU. Response-pending answers are skipped while waiting goes on, busy-repeat answers make the request be sent again at most three times, and failures of sending or receiving are reported with no message. No message is left queued or leaked.",
  [I, H, FA], "every sequence of responses, delays and failures", "Tests exercise one negative response; sequences are unbounded.",
  [D + "diag_l2_iso14230.c"], [("dl2p_14230_request", D + "diag_l2_iso14230.c")],
  "Bounded: all event sequences of the listed depths, arbitrary payload bytes; the layers below by contract.")
M("C06", "ISO 14230 session start, keep-alive and stop follow the standard",
  "Starting a session initialises the bus as asked, learns key bytes and addresses from the ECU's answer, and yields a session only after a valid complete answer; any other outcome is an error that leaves no session, message or memory behind. Keep-alive sends a tester-present and stopping sends a stop request, and both leave nothing queued.",
  [I, CF, FA], "every initialisation mode, answer and failing step", "Tests perform one fast start.",
  [D + "diag_l2_iso14230.c"], [("dl2p_14230_startcomms, dl2p_14230_stopcomms, dl2p_14230_timeout", D + "diag_l2_iso14230.c")],
  "Keep-alive proved; start and stop bounded to listed answer lengths, interface capabilities and failing steps, arbitrary answer bytes.")
M("C08", "SAE J1850 messages carry the right header and CRC, sent and received",
  "A request leaves as the header of the bus, target and source address, the unchanged payload and the SAE J1850 CRC of all of it, unless the interface adds these; an over-long one is refused. Received frames are delivered once, in order, without header and CRC, with their addresses, and marked bad exactly when the CRC is wrong. Time-outs, line errors and lack of memory are reported and leave nothing queued.",
  [I, H, FA], "every payload, frame content, read sequence and failure", "Tests replay three exchanges, one of them with a wrong CRC.",
  [D + "diag_l2_saej1850.c"], [("dl2p_j1850_crc, dl2p_j1850_send, dl2p_j1850_int_recv, dl2p_j1850_request", D + "diag_l2_saej1850.c")],
  "CRC (loop invariant) and sending proved for all lengths and contents; reception bounded to the listed read sequences with arbitrary bytes.")
M("C07", "ISO 9141-2 sessions are opened, framed and verified as the standard says",
  "A session opens only after the 5-baud wake-up, equal and known key bytes and their acknowledgement (as far as the interface does not do this itself), and a failed start leaves no session. Requests leave with the standard header and checksum, over-long ones are refused. Received frames are split at their time gaps or maximum length, checked for header and length, delivered once and in order without header and checksum, marked bad exactly when the checksum is wrong; nothing of a failed reception is delivered later.",
  [I, H, CF, FA], "every payload, frame content, key byte, read sequence, interface capability and failure", "Tests replay a few recorded exchanges.",
  [D + "diag_l2_iso9141.c"], [("dl2p_iso9141_startcomms, dl2p_iso9141_wakeupECU, dl2p_iso9141_send, dl2p_iso9141_int_recv, dl2p_iso9141_decode, dl2p_iso9141_request", D + "diag_l2_iso9141.c")],
  "Sending (all 7 payload lengths), header decoding and session start proved; reception bounded to the listed read sequences with arbitrary payload bytes.")
M("C09", "MB1 messages are framed, verified and delivered exactly when complete and intact",
  "A request leaves as address, command, total length, data and 16-bit checksum; one that the length byte cannot describe is refused. A response is delivered only when all of its bytes arrived and its checksum is right, as command and data without header and checksum; anything else is reported as an error and delivers nothing. A session starts only with the MB1 key bytes.",
  [I, H, FA], "every payload, message content, read fragmentation and failure", "No test uses this protocol.",
  [D + "diag_l2_mb1.c"], [("dl2p_mb1_send, dl2p_mb1_int_recv, dl2p_mb1_decode, dl2p_mb1_recv, dl2p_mb1_request, dl2p_mb1_startcomms, dl2p_mb1_timeout", D + "diag_l2_mb1.c")],
  "Refusal of over-long messages proved; framing and reception bounded to the listed lengths and fragmentations with arbitrary contents.")
M("C10", "KWP1281 (VAG) blocks are exchanged with verified bytes, counters and turns",
  "A block leaves only in our turn as length, counter, title, unchanged data and end byte, each byte but the last confirmed by its complement; a missing or wrong complement restarts the block after the ECU has timed out, at most three times. Received bytes are complemented; a block with a wrong counter or end byte is refused and repeated, a broken-off or impossible one is an error. A telegram is acknowledged block by block until the ECU acknowledges, and delivered complete and in order; a refused request or acknowledge is repeated, fewer than five times in a row. A session starts only with the ECU's first telegram, which the first receive delivers.",
  [I, H, FA], "every block content, counter, exchange of refusals and acknowledges, and failure", "Tests replay one framed exchange.",
  [D + "diag_l2_vag.c"], [("dl2p_vag_send, diag_l2_vag_block_recv, diag_l2_vag_int_recv, dl2p_vag_recv, dl2p_vag_request, dl2p_vag_startcomms, dl2p_vag_stopcomms, dl2p_vag_timeout", D + "diag_l2_vag.c")],
  "Bounded: the listed exchanges (framed and byte-wise) with arbitrary block contents, counters around the wrap, on a model clock; the send contract used by the receivers is the one checked by the send units.")
M("C11", "Volvo D2 messages are framed by their length, busy answers are waited out",
  "A request leaves as format byte counting payload and checksum, the message's or else the session's addresses, and the unchanged payload; a payload the length field cannot describe is refused. Every complete frame is delivered once as its payload with its addresses; an incomplete frame, a line error or lack of memory is reported. A request returns the first answer that is not a busy answer to this very request. A session starts only on a capable interface, with the address in odd parity, the keep-alive message installed and the D2 key bytes.",
  [I, H, CF, FA], "every payload, answer sequence, interface capability and failing step", "Tests of the D2 protocol replay a few recorded exchanges.",
  [D + "diag_l2_d2.c"], [("dl2p_d2_send, dl2p_d2_recv, dl2p_d2_request, dl2p_d2_startcomms, dl2p_d2_stopcomms, dl2p_d2_timeout", D + "diag_l2_d2.c")],
  "Sending (all lengths) and session start proved; receiving and requests bounded to the listed frame lengths and sequences with arbitrary contents.")
M("C12", "The raw protocol passes bytes through unchanged in both directions",
  "Every message is handed to the interface as it is, and what one read returns is delivered once as one message of exactly these bytes, of any length, not marked as framed or checked. Errors and lack of memory are reported and deliver nothing.",
  [I, FA], "every message, read result and failure", "The tests use two short messages.",
  [D + "diag_l2_raw.c"], [("dl2p_raw_send, dl2p_raw_recv, dl2p_raw_request, dl2p_raw_startcomms", D + "diag_l2_raw.c")],
  "Proved for all lengths and contents.", "proof")
M("C13", "The interface layer passes bytes through intact and removes exactly the echo",
  "Bytes sent go to the interface unchanged and in order, in one block or one by one with the requested gap as the interface's capabilities demand, and on a half-duplex line exactly the echo is read back and compared. A mismatching or missing echo, a refused length or a failure of the interface is reported as an error; a receive returns what the interface delivered, or its error.",
  [I, CF, FA], "every data, length, gap, capability set and interface failure", "Tests use simulated full-duplex interfaces.",
  [D + "diag_l1.c"], [("diag_l1_send, diag_l1_recv, diag_l1_open, diag_l1_close, diag_l1_ioctl", D + "diag_l1.c")],
  "Proved for all lengths and contents (byte-wise mode by loop contract); the interface driver is an arbitrary one.", "proof")
M("C14", "L2 keeps links and sessions consistent and idle sessions alive",
  "A device is opened once, shared only with the same L1 protocol, closed only when no session uses it, and is left closed after any failure; a device has at most one session, of a known protocol, and a failed start leaves nothing behind. Stopping a session releases it and its queued messages. Exactly the open sessions that have been idle longer than their interval get a keep-alive, except when monitoring or when the interface does it. Requests and control calls reach the session's protocol or interface unchanged, and its result is reported.",
  [H, I, FA], "every history of opening, starting, using, stopping and closing on several devices, every time, capability and failure", "Tests use one device and one session.",
  [D + "diag_l2.c"], [("diag_l2_open, diag_l2_close, diag_l2_StartCommunications, diag_l2_StopCommunications, diag_l2_timer, diag_l2_send, diag_l2_recv, diag_l2_request, diag_l2_ioctl, diag_l2_addmsg", D + "diag_l2.c")],
  "Control routing proved; histories bounded: every operation (including each failure) on two devices in each of 34 reached states, arbitrary times, flags and parameters.")
M("C20", "Errors are reported by their code and latched until read",
  "An error code raised in any layer is returned unchanged to the caller, and the first code raised since the last query is reported once by the error query and then cleared. Every code has a non-empty text, and an unknown code gives a text that fits its buffer.",
  [I], "every error code", "Tests see only a few codes.", [D + "diag_general.c"], [("diag_p_pseterr, diag_p_iseterr, diag_geterr, diag_errlookup", D + "diag_general.c")],
  "Proved for every int code.", "proof")
M("C15", "L3 keeps connections consistent, forwards unchanged and describes messages",
  "L3 runs at most one connection of a known protocol on an L2 session; a failed start leaves nothing behind and a stop releases everything. Sends, receives, requests and control calls reach the protocol and session of that connection unchanged, and their result the caller. The timer serves exactly the open connections that have a timer, and never while a list operation is under way. ISO 14230 and VAG messages are described as request or response with service, meaning of negative responses and all data bytes, in a text that is always terminated inside the buffer.",
  [H, I, FA], "every history of L3 operations on two sessions; every message and buffer size", "Tests start one L3 connection and print a few messages.",
  [D + "diag_l3.c", D + "diag_l3_iso14230.c", D + "diag_l3_vag.c", D + "diag_general.c"], [("diag_l3_start, diag_l3_stop, diag_l3_send, diag_l3_recv, diag_l3_request, diag_l3_ioctl, diag_l3_timer, diag_l3_base_*", D + "diag_l3.c"), ("diag_l3_iso14230_decode_response, diag_l3_iso14230_recv", D + "diag_l3_iso14230.c"), ("smartcat", D + "diag_general.c")],
  "Sending, receiving and key bytes proved; histories bounded to every operation in each of 18 reached states, texts to the listed codes and lengths.")
M("C16", "J1979 messages are recognised by length, delivered once and described right",
  "A J1979 session starts only if the ECU answers mode 1 PID 0. Messages leave unchanged but for a missing source address. Incoming bytes are split into messages of exactly the length SAE J1979 gives for their mode and PID, however they arrive, and each is delivered once and in order; what is not J1979 is reported and nothing overflows or leaks. Idle sessions get a mode 1 PID 0 request after 3.5 s. Every message is described with its mode, PIDs, trouble codes and data, in a text terminated inside the buffer.",
  [H, I, FA], "every message content, arrival pattern, buffer state, time-out and failure", "Tests replay a handful of complete messages.",
  [D + "diag_l3_saej1979.c"], [("diag_l3_j1979_getlen, diag_l3_rcv_callback, diag_l3_j1979_process_data, diag_l3_j1979_recv, diag_l3_j1979_decode, diag_l3_j1979_start, diag_l3_j1979_timer", D + "diag_l3_saej1979.c")],
  "Message lengths, buffering, sending, start and keep-alive proved; reception bounded to the listed arrival patterns, texts to the listed messages (arbitrary ones of up to 7 bytes for memory safety).")
M("C19", "Diagnostic trouble codes are decoded to their standard text",
  "Two bytes of a J1979/J2012 trouble code give the area letter (P, C, B, U), a digit from 0 to 3 and three hexadecimal digits; any other length or code system gives a message instead of a code. The text is always terminated and never written outside the given buffer, whatever its size.",
  [I], "every pair of bytes, length, code system and buffer size", "No test covers the decoder alone.",
  [D + "diag_dtc.c"], [("diag_dtc_decode", D + "diag_dtc.c")], "Proved for all codes and all buffer sizes up to 40.", "proof")
M("C21", "Interface options hold exactly the value set last, or their default",
  "An option takes values of its own type only and refuses others unchanged; exactly its listed choices can be chosen. Showing it gives a text of its value, resetting it its default. A refresh of the port list replaces the choices and the default, and nothing else. Without memory an option keeps its value and reports the failure, and clearing it releases everything.",
  [H, I, FA], "every value, choice number and history of operations, with and without memory", "Tests set a few options once.",
  [D + "diag_cfg.c", D + "diag_general.c"], [("diag_cfg_setstr, diag_cfg_setopt, diag_cfg_getstr, diag_cfg_reset, diag_cfg_clear, tty_refresh, std_reset", D + "diag_cfg.c"), ("strlist_add, strlist_free", D + "diag_general.c")],
  "Numbers proved for all values; texts bounded: every operation (with and without memory) in each of 16 reached states of a text or port option.")

M("C24", "A serial port carries the bytes unchanged, in the format asked for",
  "An opened port passes all bytes unchanged. Setting a format sets exactly the data bits, stop bits, parity and speed, or reports failure. Writing sends each byte once, in order, also after short or interrupted writes; reading returns the bytes that came before the time-out, in order, and never waits beyond it. DTR, RTS and breaks are exactly those asked for. Closing restores the settings found and releases everything.",
  [I, FA, "schedules"], "every format, failing system call, short or interrupted read or write", "Tests have no serial port.",
  [D + "diag_tty_unix.c", D + "diag_tty_unix.h"], [("diag_tty_open, diag_tty_close, diag_tty_setup, diag_tty_control, diag_tty_read, diag_tty_write, diag_tty_break, diag_tty_fastbreak, diag_tty_getportlist", D + "diag_tty_unix.c")],
  "The kernel's tty calls are a contract model (ioctl, select, read, write, termios). Control lines proved for all values; formats for all values at 6 speeds; reads and writes bounded: listed sequences of events, all byte values.")

M("C22", "Command lines run the command named, with the words typed",
  "The first word of a line selects exactly the command of that name in the current menu, in any case of letters, or the menu's handler for other words; the remaining words reach it unchanged and in order. Menus, up, exit, comments, scripts and the end of input behave as documented, and nothing is leaked. Numbers have the value written in decimal, octal or hexadecimal, and are 0 if malformed. The log holds each command with its time; no log is overwritten.",
  [I, H, "programs"], "every line, script, menu depth and number", "Tests run a few fixed scripts.",
  [D + "libcli.c", D + "scantool_cli.c"], [("cli_enter, do_cli, find_cmd, command_file, cli_basic_get_input, cli_help_basic", D + "libcli.c"), ("htoi, cmd_log, log_command, scantool_cli, find_rcfile", D + "scantool_cli.c")],
  "Bounded: sessions listed (expected results computed by an independent specification), every word of up to 5 bytes against tables, every number text up to the lengths listed. readline is not in this build.")

NA["N01"] = dict(title="Periodic keep-alives never interleave with a running request",
  statement="The periodic timer never sends a keep-alive in the middle of another exchange on the same connection, whatever the schedule.",
  over=["schedules"], qtext="every interleaving of the timer thread or signal with foreground exchanges", why="Interleavings are not controlled by the tests.",
  files=[D + "diag_os_unix.c", D + "diag_l3.c"], mech=[("diag_l3_timer, diag_os_unix timers", D + "diag_os_unix.c")],
  reason="The contract back ends available (CBMC code contracts) are sequential: no thread permissions or signal interleavings; a schedule property cannot be expressed as a per-function contract here.")
NA["N02"] = dict(title="Bus timing is kept in real time",
  statement="Pauses and pulse widths produced on a real serial line stay within the tolerances of the standards.",
  over=["schedules"], qtext="every scheduling and hardware latency", why="Depends on the kernel and the hardware.",
  files=[D + "diag_os_unix.c", D + "diag_tty_unix.c"], mech=[("diag_os_millisleep, tty break", D + "diag_os_unix.c")],
  reason="Wall-clock behaviour of the kernel and of serial hardware lies outside any functional contract; the durations requested from the OS are checked by the protocol units instead.")
