#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "In-order, gap-free, exactly-once delivery per subscription",
 "The packets a subscriber hands to its application from one publisher's subscription are consecutive packet numbers starting at the first packet received on that subscription: none skipped, none repeated, none out of order, whatever mixture of multicast and TCP copies arrives. "
 "A received packet becomes available to the application, with the packet-ready notification, exactly when every packet between the first received one and it has been received, and is held back until then. "
 "Packets stay available, in the order in which they became available, until the application marks them dispatched.",
 ["schedules", "histories", "inputs"],
 "every order of arrival, every duplication, every split between multicast and TCP retransmission, every starting packet number including values beyond 32 bits",
 "sub_test feeds one fixed arrival order into the internal lists; the protocol tests run over a loss-free loopback where packets arrive in order once.",
 ["sub.c", "rmc_sub_read.c", "rmc_sub_packet.c"],
 [("max_pid_ready", "highest packet number handed over for dispatch", "sub.h:sub_publisher"), ("received_pid", "received packets waiting for a gap to close", "rmc_sub.h:sub_publisher"), ("dispatch_ready", "packets waiting for the application", "rmc_internal.h:rmc_sub_context")],
 [("duplicate check", "sub.c:sub_packet_is_duplicate"), ("contiguous prefix transfer", "sub.c:sub_process_received_packets"), ("ready notification", "rmc_sub_read.c:decode_subscribed_multicast, process_cmd_packet")],
 ["rmc_sub_get_next_dispatch_ready", "rmc_sub_packet_dispatched", "packet_ready_cb", "rmc_sub_get_dispatch_ready_count"])

prop("C02", "Payload bytes and length survive both transports unchanged",
 "For every payload length from zero to the documented maximum, the bytes and length that a publisher's application queued are exactly what is put on the wire, both in the multicast datagram and in a TCP retransmission, together with the publisher's node id, control address and port. "
 "A subscriber's application is handed exactly the bytes and length that the received datagram or retransmission carried.",
 ["inputs", "histories"],
 "every payload length and content, every position of a retransmission within the connection's internal byte queues, every fragmentation of the TCP stream",
 "the protocol tests send one fixed 1000-odd byte payload size over multicast and never verify a retransmitted payload; no test wraps the TCP byte queues.",
 ["rmc_pub_write.c", "rmc_sub_read.c", "circular_buffer.c", "rmc_protocol.c", "rmc_protocol.h"],
 [("payload", "application bytes of a queued packet", "rmc_pub.h:pub_packet"), ("write_buf/read_buf", "byte queues of a TCP connection", "rmc_internal.h:rmc_connection")],
 [("datagram assembly", "rmc_pub_write.c:send_single_multicast_packet"), ("retransmission assembly", "rmc_pub_write.c:rmc_pub_resend_packet"), ("payload copy", "rmc_sub_read.c:decode_subscribed_multicast, process_cmd_packet")],
 ["bytes given to sendmsg/writev", "bytes obtained from rmc_sub_packet_payload"])

prop("C03", "Unacknowledged packets are retransmitted, oldest first, to whom they are owed",
 "When the publisher's timeout processing runs and no announcement is due (a due announcement is handled by a run of its own), every packet that was multicast at least the resend timeout (100 ms) earlier while a subscriber was connected, and that this subscriber has neither acknowledged nor already been resent, is queued for that subscriber on its TCP connection, once, lowest packet number first, as far as the connection's outgoing queue has room. "
 "Packets that do not fit stay owed and are queued by a later run once there is room, and nothing is retransmitted earlier than the timeout, to a subscriber that acknowledged it, or to a subscriber that connected after it was sent.",
 ["schedules", "histories", "fault_sequences"],
 "every pattern of acknowledgements, send times, traffic during retransmission, stalled connections and connect times of subscribers",
 "pub_test calls the timed-out-packet query with every packet timed out; no test has loss, newer packets in flight, or a full outgoing queue.",
 ["pub.c", "rmc_pub_timeout.c", "rmc_pub_write.c"],
 [("inflight", "packets a subscriber still owes an acknowledgement for", "rmc_pub.h:pub_subscriber"), ("send_ts", "time of the multicast send", "rmc_pub.h:pub_packet")],
 [("timed-out selection", "pub.c:pub_get_timed_out_subscribers, pub_get_timed_out_packets"), ("resend and internal acknowledgement", "rmc_pub_timeout.c:process_sent_packet_timeout")],
 ["rmc_pub_timeout_process", "packet commands written to each TCP connection", "rmc_pub_context_get_pending"])

prop("C04", "A queued payload is released exactly once, and only when no longer needed",
 "Each payload accepted by the publisher is handed to the payload-free function exactly once, with its own address and length: immediately after the multicast send if no subscriber is connected or the packet is an announcement, and otherwise at the moment the last subscriber that was connected at the send has acknowledged it, been sent a TCP copy, or disconnected. "
 "It is never released, modified or reused while it is still queued or owed to a subscriber, and a payload whose queueing was refused is never released by the library.",
 ["histories", "schedules"],
 "every interleaving of sends, acknowledgements (including repeated, overlapping and unknown ranges), retransmissions, connects and disconnects",
 "pub_test acknowledges a few packets in a fixed order from fixed subscribers; leaks, double release and release while still owed to another subscriber go unnoticed.",
 ["pub.c", "rmc_pub_packet.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_pub_timeout.c"],
 [("ref_count", "number of subscribers still owing an acknowledgement", "rmc_pub.h:pub_packet"), ("inflight", "packets sent and not fully acknowledged", "rmc_pub.h:pub_context")],
 [("reference counting", "pub.c:pub_packet_sent, pub_packet_ack"), ("disconnect release", "pub.c:pub_reset_subscriber")],
 ["payload_free callback of rmc_pub_init_context", "payload bytes on the wire"])

prop("C05", "Acknowledgements are truthful, complete, timely and go to the right publisher",
 "A subscriber acknowledges to a publisher exactly the packet numbers it received from that publisher by multicast on the current subscription: each one exactly once, never one it did not receive, never a duplicate, and never one that arrived by TCP. Packets numbered below the first received one do not belong to the subscription and are not acknowledged. "
 "When the subscriber's timeout processing runs at least the acknowledgement timeout (50 ms) after the oldest unacknowledged receipt from a publisher, all of that publisher's unacknowledged receipts are put on that publisher's connection, and before that time none are; if the connection's outgoing queue is full they are kept and sent by a later run. "
 "A publisher treats an acknowledged range as received by the subscriber that sent it and by no other.",
 ["schedules", "histories", "inputs"],
 "every arrival order and duplication, every publisher mix, every timing relative to the acknowledgement timeout, every packet number including those beyond 32 bits",
 "sub_test calls the acknowledgement code with one fixed pattern; nothing checks that un-received packets are not acknowledged or that a later timeout or a full queue keeps the information.",
 ["rmc_sub_timeout.c", "rmc_sub_packet.c", "rmc_sub_write.c", "sub.c", "rmc_pub_read.c", "rmc_pub_packet.c"],
 [("received_interval", "received packet ranges not yet acknowledged", "rmc_sub.h:sub_publisher"), ("pub_ack_list", "publishers with pending acknowledgements", "rmc_internal.h:rmc_sub_context")],
 [("interval bookkeeping", "sub.c:sub_packet_add_to_received_interval"), ("acknowledgement emission", "rmc_sub_timeout.c:rmc_sub_timeout_process"), ("acknowledgement processing", "rmc_pub_read.c:process_cmd_ack_interval")],
 ["acknowledgement commands written to TCP", "rmc_pub_context_get_pending", "payload_free callback"])

prop("C06", "Throttling suspends at the threshold and always resumes",
 "With a suspend threshold above zero, queueing is refused with a busy error exactly from the moment a packet is accepted while at least the suspend threshold of packets are sent and not fully acknowledged, until the number of such packets falls to the resume threshold or below, whether through acknowledgements, TCP retransmission or subscribers disconnecting (with equal thresholds and exactly that many such packets, either answer is allowed). "
 "A refused packet has no effect, the suspended query agrees with what queueing would do, thresholds where suspend is lower than resume are rejected and leave the previous thresholds in force, and without a suspend threshold queueing is never refused for this reason.",
 ["histories", "schedules", "configurations"],
 "every pair of thresholds and every interleaving of queueing, sending, acknowledging, retransmitting, connecting and disconnecting",
 "no test enables throttling together with an assertion; the stable protocol tests leave it off.",
 ["rmc_pub_packet.c", "rmc_pub_context.c", "rmc_pub_read.c"],
 [("traffic_suspended", "queueing currently refused", "rmc_internal.h:rmc_pub_context"), ("traffic_suspend_threshold/traffic_resume_threshold", "hysteresis limits", "rmc_internal.h:rmc_pub_context")],
 [("suspend", "rmc_pub_packet.c:rmc_pub_queue_packet"), ("resume", "rmc_pub_packet.c:rmc_pub_packet_ack"), ("configuration", "rmc_pub_context.c:rmc_pub_throttling")],
 ["rmc_pub_queue_packet", "rmc_pub_traffic_suspended", "rmc_pub_throttling"])

prop("C07", "Announcements, and only announcements, set up subscriptions, one per publisher",
 "On an announcement from a publisher it has no connection to, a subscriber asks its announce callback, with the publisher's control address (the datagram's source address if the announced address is zero), port, node id and payload, and opens a TCP connection to that address exactly if the callback agrees or none is set; an announcement from a publisher it is connected or connecting to causes neither. "
 "The subscription-complete callback runs exactly once per successful connection with that publisher's address, port and node id, and a failed connection attempt leaves no connection, so that the next announcement is considered afresh. "
 "Data packets from a publisher without an established connection have no effect, and announcements are never delivered to the application.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every sequence of announcements and data from any number of publishers, every callback decision, every connection outcome, with and without an explicit control address",
 "the protocol tests see one announcement accepted at once and one successful connection per publisher.",
 ["rmc_sub_read.c", "rmc_sub_write.c", "rmc_connection.c"],
 [("mode", "closed, connecting or connected", "rmc_internal.h:rmc_connection"), ("remote_address/remote_port/node_id", "identity of the publisher at the other end", "rmc_internal.h:rmc_connection")],
 [("announce handling", "rmc_sub_read.c:process_multicast_read, decode_unsubscribed_multicast"), ("connection set-up", "rmc_connection.c:rmc_conn_connect_tcp_by_address, rmc_conn_complete_connection")],
 ["announce_cb", "subscription_complete_cb", "connect() calls", "rmc_sub_get_publisher_count"])

prop("C08", "Publishers do not affect each other inside a subscriber",
 "What a subscriber delivers, acknowledges and buffers for one publisher depends only on what that publisher sent: another publisher's packet numbers, gaps, losses, duplicates, stalled or broken connection never cause a packet of the first to be dropped, delayed, delivered twice, or acknowledged to the wrong publisher. "
 "Publishers are told apart by control address and port even when their node ids, packet numbers, or one of address and port coincide.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of the traffic of several publishers at one subscriber, with independent losses, stalls and disconnects, and coinciding identifiers",
 "the stable protocol tests use one publisher and one subscriber.",
 ["rmc_sub_read.c", "rmc_sub_timeout.c", "rmc_sub_packet.c", "rmc_connection.c", "sub.c"],
 [("publishers", "per-publisher reception state, indexed like the connections", "rmc_internal.h:rmc_sub_context"), ("pub_ack_list", "publishers with pending acknowledgements", "rmc_internal.h:rmc_sub_context")],
 [("connection lookup", "rmc_connection.c:rmc_conn_find_by_address"), ("per-publisher state", "rmc_sub_read.c:decode_subscribed_multicast")],
 ["delivered packets", "acknowledgement commands per TCP connection"])

prop("C09", "Subscribers do not affect each other at a publisher",
 "Which packets a publisher retransmits to one subscriber, and when, depends only on that subscriber's own connect time, acknowledgements and outgoing queue: another subscriber's acknowledgement, loss, stalled connection or disconnect never suppresses, delays, duplicates or redirects it. "
 "A packet counts as delivered to all only when each subscriber connected at its send has individually acknowledged it, been sent a TCP copy, or disconnected.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of acknowledgements, stalls, connects and disconnects of several subscribers of one publisher",
 "the stable protocol tests use one publisher and one subscriber; pub_test never stalls or disconnects one of several subscribers.",
 ["pub.c", "rmc_pub_timeout.c", "rmc_pub_packet.c", "rmc_pub_read.c"],
 [("subscribers", "per-subscriber retransmission state", "rmc_pub.h:pub_context"), ("inflight", "packets owed by each subscriber", "rmc_pub.h:pub_subscriber")],
 [("per-subscriber resend", "rmc_pub_timeout.c:rmc_pub_timeout_process"), ("per-subscriber acknowledgement", "pub.c:pub_packet_ack")],
 ["packet commands written to each TCP connection", "payload_free callback", "rmc_pub_context_get_pending"])

prop("C10", "A disconnect cleans up everything the connection held and frees its slot",
 "When a connection ends, for whatever reason (peer close, read error, protocol error, explicit close, rejected subscriber), it is removed from polling exactly once before its descriptor is closed exactly once, its unsent bytes and partially received command are discarded, the packets it owed or buffered are released, and it no longer appears in counts, timers or pending reports. "
 "A later connection that reuses the slot starts clean: nothing received, owed, half-parsed or half-sent on the old connection has any effect on the new one, and packets already available to the application stay available.",
 ["histories", "fault_sequences", "schedules"],
 "every reason and point in time for a disconnect, and every reuse of slots by later connections to the same or other peers",
 "the tests tear connections down once, at the end of a run, and never reconnect.",
 ["rmc_connection.c", "rmc_pub_read.c", "rmc_sub_read.c", "pub.c", "sub.c"],
 [("mode/descriptor", "slot in use", "rmc_internal.h:rmc_connection"), ("max_connection_ind/active_connection_count", "slot accounting", "rmc_internal.h:rmc_connection_vector")],
 [("connection reset", "rmc_connection.c:rmc_conn_close_connection, rmc_conn_reset_connection"), ("subscriber reset", "pub.c:pub_reset_subscriber"), ("publisher reset", "sub.c:sub_reset_publisher")],
 ["poll_remove callback", "close() calls", "subscriber/publisher/socket counts", "timers", "traffic on the new connection"])

prop("C11", "The connection byte queue is a lossless bounded FIFO",
 "For any capacity and any sequence of reserving, trimming, reading (from the start or at an offset), inspecting and freeing bytes, the byte queue returns exactly the bytes stored, in order, reports exactly how many bytes are stored and can still be stored, and every region it hands out lies inside its storage and does not overlap bytes still stored. "
 "A reservation larger than the free space is refused without effect, trimming to a target length keeps exactly the first target-length bytes, and freeing removes exactly the requested number of bytes from the front, at most all of them.",
 ["histories", "inputs"],
 "every sequence of operations, every fill level and wrap position, every operation size including zero, the exact fit and one beyond it",
 "circular_buffer_test walks one scripted sequence on one small buffer and checks indices at chosen points; wrapped trims and offset reads past the wrap are not covered.",
 ["circular_buffer.c", "circular_buffer.h"],
 [("start_ind/stop_ind", "bounds of the stored bytes", "circular_buffer.h:circ_buf")],
 [("reserve", "circular_buffer.c:circ_buf_alloc"), ("trim", "circular_buffer.c:circ_buf_trim"), ("read", "circular_buffer.c:circ_buf_read_offset, circ_buf_read_segment"), ("free", "circular_buffer.c:circ_buf_free")],
 ["circ_buf_* functions"])

prop("C12", "TCP commands are framed correctly under any segmentation",
 "The effect of a TCP byte stream on the receiver is that of its complete commands in order, independent of how the bytes are split across reads and writes: a command takes effect exactly when its last byte has been read, an incomplete command has no effect and is kept, and a write that accepts only part of the data is continued at the exact next byte. A read that finds nothing to read yet, or a write that finds no room, leaves the connection and everything kept for it as it was. "
 "A byte that starts no known command, or a command that says it is longer than a connection can ever hold, makes the receiver report a protocol error; nothing after it is interpreted, and the receiver closes the connection.",
 ["inputs", "schedules", "histories"],
 "every command sequence, every split of the stream into reads and partial writes, every position within the internal queues, including maximum-size commands",
 "the tests run over loopback where a command nearly always arrives whole; partial commands, wrapped queues and unknown commands are not exercised.",
 ["rmc_protocol.c", "rmc_pub_read.c", "rmc_sub_read.c", "circular_buffer.c"],
 [("read_buf/write_buf", "bytes read and not yet interpreted, bytes not yet written", "rmc_internal.h:rmc_connection")],
 [("read loop", "rmc_protocol.c:rmc_conn_tcp_read, rmc_conn_process_tcp_read"), ("partial write", "rmc_protocol.c:rmc_conn_process_tcp_write"), ("command handlers", "rmc_pub_read.c, rmc_sub_read.c")],
 ["effects of commands: deliveries, acknowledgements, control callbacks", "result of rmc_pub_read and rmc_sub_read"])

prop("C13", "Control messages arrive exactly once, in order and byte-exact",
 "Every control message accepted by a subscriber for a publisher it is connected to invokes that publisher's control-message callback exactly once, in the order sent, with exactly the bytes and length given and the sending subscriber's address and port, regardless of acknowledgements interleaved on the connection; without a callback it is dropped silently and the messages and acknowledgements after it are processed normally. "
 "Sending is refused without effect with an invalid-argument error for a missing or empty payload, not-connected if no established connection matches the given node id or address and port, and out-of-memory if the message does not fit in the outgoing queue. If several established connections share a node id, which of them is addressed by it is left open.",
 ["inputs", "histories", "schedules"],
 "every message length and content, every queue fill level and wrap position, every mix of messages and acknowledgements, addressing by node id and by address",
 "no stable test sends a control message.",
 ["rmc_sub_write.c", "rmc_pub_read.c", "rmc_connection.c", "rmc_pub_context.c", "circular_buffer.c"],
 [("subscriber_control_message_cb", "publisher's callback", "rmc_internal.h:rmc_pub_context"), ("write_buf", "bytes to be written to the publisher", "rmc_internal.h:rmc_connection")],
 [("send", "rmc_sub_write.c:rmc_sub_write_control_message"), ("receive", "rmc_pub_read.c:process_control_message"), ("addressing", "rmc_connection.c:rmc_conn_find_by_node_id, rmc_conn_find_by_address")],
 ["control-message callback of the publisher", "return values of rmc_sub_write_control_message_by_*"])

prop("C14", "Poll interest always matches the work that is pending",
 "For every descriptor the library owns, the interest last requested through the poll callbacks includes write exactly while a TCP connection is being set up or has unsent bytes (for the publisher's multicast descriptor: while packets are queued), and includes read throughout for listening, multicast-receive and established TCP descriptors, so that an event loop that obeys the callbacks never stalls and never spins. "
 "Every descriptor is added once before any change, changed only while added, removed exactly once, before it is closed, under the same index throughout and never an index in use by another descriptor; and a change always names the previous interest of a TCP descriptor correctly.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of reads, writes, partial writes, acknowledgements, control messages, retransmissions, connects and disconnects",
 "the tests use level-triggered-like loops over short runs; a lost write interest only shows up as a stall under a specific interleaving of reads and pending writes.",
 ["rmc_connection.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_pub_read.c", "rmc_pub_write.c", "rmc_pub_packet.c"],
 [("action", "interest currently registered", "rmc_internal.h:rmc_connection")],
 [("interest updates", "rmc_sub_write.c, rmc_pub_write.c, rmc_sub_read.c, rmc_pub_read.c: poll_modify calls")],
 ["poll_add, poll_modify and poll_remove callbacks"])

prop("C15", "Reported timeouts are exact and processing them makes progress",
 "The next-timeout query of a publisher is the earlier of the next announcement time and the send time of the oldest packet still owed to a connected subscriber plus the resend timeout, and that of a subscriber is the receive time of the oldest unacknowledged packet plus the acknowledgement timeout; it reports that there is none exactly when nothing is outstanding. "
 "Processing at the reported time or later performs the due work so that the reported time moves on unless a full outgoing queue prevents it, and processing earlier does nothing. Times are those of a clock that only runs forwards: setting the system's time changes nothing.",
 ["histories", "schedules"],
 "every combination of outstanding packets of several peers, announce intervals, disconnects and processing times, including exactly at, just before and long after the due time, and clock values beyond 32 bits",
 "the tests only use the value as a poll timeout; a wrong value shows up as latency or a busy loop, never as a failed assertion.",
 ["rmc_pub_timeout.c", "rmc_sub_timeout.c", "pub.c", "sub.c", "rmc_sub_packet.c", "rmc_pub_context.c"],
 [("send_ts", "send time of a packet", "rmc_pub.h:pub_packet"), ("receive_ts", "receive time of an unacknowledged range", "rmc_sub.h:sub_pid_interval"), ("announce_next_send_ts", "next announcement", "rmc_internal.h:rmc_pub_context")],
 [("publisher timer", "rmc_pub_timeout.c:rmc_pub_timeout_get_next"), ("subscriber timer", "rmc_sub_timeout.c:rmc_sub_timeout_get_next")],
 ["rmc_pub_timeout_get_next", "rmc_sub_timeout_get_next"])

prop("C16", "Packets are numbered consecutively and multicast once each, in order",
 "The packets a publisher accepts are numbered 1, 2, 3, ... in acceptance order without gaps, and each is multicast exactly once, in number order, when the publisher is told it may write; a send that would block leaves the packet and everything behind it queued, unchanged and in order, to be sent by a later write, and any other send error is returned to the caller with the packet still queued. "
 "Refused packets (missing payload, too long, throttled) return the matching error, consume no number and are never sent.",
 ["histories", "fault_sequences", "inputs"],
 "every interleaving of queueing and writing, every position of a would-block or failed send, every refused packet",
 "pub_test checks numbering of a handful of packets; no test makes a multicast send fail or refuses a packet.",
 ["pub.c", "rmc_pub_packet.c", "rmc_pub_write.c"],
 [("next_pid", "next packet number", "rmc_pub.h:pub_context"), ("queued", "packets accepted and not yet sent", "rmc_pub.h:pub_context")],
 [("numbering", "pub.c:_next_pid, pub_queue_packet"), ("sending", "rmc_pub_write.c:process_multicast_write")],
 ["datagrams given to sendmsg", "rmc_pub_queue_packet", "rmc_pub_write", "rmc_pub_queue_length"])

prop("C17", "Announcements are sent on schedule with the payload the callback gave",
 "With an announce interval set, each timeout processing at or after the due time asks the announce callback (if any) once, queues one announcement with exactly the payload bytes and length it returned (empty without a callback) unless the callback declines or traffic is suspended, and schedules the next one a full interval later; before the due time and with a zero interval nothing is announced. "
 "An announcement carries packet number zero and the publisher's node id, control address and port, is multicast ahead of queued data exactly once, and is never retransmitted, acknowledged, counted against the throttle or assigned a data packet number; its payload on the wire is intact even if it is sent much later than it was queued.",
 ["histories", "schedules", "configurations"],
 "every announce interval and change of it, callback outcome and payload length, and every delay between queueing and sending",
 "the tests announce an empty or ignored payload and send it at once.",
 ["rmc_pub_timeout.c", "rmc_pub_context.c", "pub.c", "rmc_pub_packet.c", "rmc_pub_write.c"],
 [("announce_send_interval/announce_next_send_ts", "announcement schedule", "rmc_internal.h:rmc_pub_context")],
 [("schedule", "rmc_pub_timeout.c:rmc_pub_timeout_process, rmc_pub_context.c:rmc_pub_set_announce_interval"), ("number zero", "pub.c:pub_queue_no_acknowledge_packet, pub_packet_sent")],
 ["announce callback", "datagrams given to sendmsg", "rmc_pub_timeout_get_next"])

prop("C18", "Connection capacity is enforced and counts are exact",
 "A context never has more connections than the maximum it was created with, and can always use all of them: connections below the maximum succeed whichever slots earlier disconnects have freed, and at the maximum a further subscriber or publisher is not connected, leaves existing connections undisturbed, and is admitted once a slot becomes free. "
 "The reported maximum, subscriber or publisher count and socket count equal the actual numbers after every operation, including failed accepts and failed connects.",
 ["histories", "configurations", "fault_sequences"],
 "every maximum and every order of connects, failures and disconnects",
 "the stable tests use one connection out of a fixed maximum.",
 ["rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_read.c"],
 [("size/active_connection_count/max_connection_ind", "slot accounting", "rmc_internal.h:rmc_connection_vector")],
 [("slot allocation", "rmc_connection.c:_get_free_slot, _reset_max_connection_ind"), ("accounting", "rmc_connection.c:rmc_conn_process_accept, rmc_conn_connect_tcp_by_address, rmc_conn_close_connection")],
 ["rmc_pub_get_subscriber_count", "rmc_sub_get_publisher_count", "socket and maximum counts", "poll_add callbacks"])

prop("C19", "Acknowledged ranges are merged into the unique minimal set of intervals",
 "The ranges a subscriber sends when it acknowledges are the unique minimal set of disjoint, non-adjacent intervals, in ascending order, whose union is exactly the set of packet numbers to be acknowledged, for every order in which those packets arrived. "
 "Merging keeps the receive time of the oldest packet, so that merging never postpones an acknowledgement.",
 ["inputs", "histories"],
 "every arrival order of every set of packet numbers, including merges at both ends of an interval and numbers beyond 32 bits",
 "sub_interval_test inserts two scripted orders and never looks at times.",
 ["sub.c", "rmc_sub_timeout.c"],
 [("received_interval", "ranges not yet acknowledged", "rmc_sub.h:sub_publisher")],
 [("interval insertion", "sub.c:sub_packet_add_to_received_interval"), ("emission", "rmc_sub_timeout.c:rmc_sub_timeout_process")],
 ["acknowledgement commands written to TCP", "rmc_sub_timeout_get_next"])

prop("C20", "The list container behaves as an ordered sequence",
 "For every sequence of list operations (pushing and popping at either end, inserting before or after an element, sorted insertion in both directions, unlinking, deleting, emptying, moving nodes between lists, searching and iterating in both directions), the list equals the mathematical sequence those operations define, forwards and backwards, with the correct size, and every node belongs to the list that contains it. "
 "Sorted insertion keeps a sorted list sorted, an element equal to others landing nearest the end the search for its place starts from; searches return the first match in search order and stop early when told to, and every node the list allocated is freed exactly once.",
 ["histories", "inputs"],
 "every operation sequence over short lists, covering empty, single-element, head, tail and middle positions and equal keys",
 "list_test scripts one sequence of operations over one list.",
 ["rmc_list.h", "rmc_list_template.h"],
 [("head/tail/elem_count", "ends and size of the list", "rmc_list.h"), ("next/prev/owner", "links of a node", "rmc_list.h")],
 [("list operations", "rmc_list_template.h:RMC_LIST_IMPL")],
 ["generated list functions"])

prop("C21", "The pending-work report is exact",
 "At every moment the publisher's pending report gives the number of packets queued and not yet multicast, the number of bytes accepted for TCP connections and not yet written, and the number of packets still owed summed over the connected subscribers, and says busy exactly when one of them is non-zero. "
 "Any of the outputs may be omitted without changing the others or the result, so that an application that stops when the report is idle has lost nothing.",
 ["histories", "schedules"],
 "every interleaving of queueing, sending, acknowledging, retransmitting, partial writing, connecting and disconnecting",
 "the protocol tests poll the report only to decide when to exit, after everything has been acknowledged.",
 ["rmc_pub_write.c", "rmc_pub_packet.c", "rmc_connection.c"],
 [("queued, inflight, write_buf", "work outstanding", "rmc_pub.h, rmc_internal.h")],
 [("report", "rmc_pub_write.c:rmc_pub_context_get_pending"), ("queue length", "rmc_pub_packet.c:rmc_pub_queue_length")],
 ["rmc_pub_context_get_pending", "rmc_pub_queue_length"])

prop("C22", "Malformed multicast datagrams are rejected without effect",
 "A non-empty datagram shorter than a packet header, or shorter than the header plus the payload length it claims, makes the multicast read return a protocol error and has no other effect: no memory outside the datagram is interpreted, nothing is delivered, acknowledged, connected or called back. An empty datagram is ignored. "
 "Well-formed datagrams received before and after it are processed as if it had not been there, and bytes beyond the claimed payload length are ignored.",
 ["inputs", "fault_sequences"],
 "every truncation and length mismatch of data and announcement datagrams, in every subscription state and at every position in the datagram sequence",
 "no test sends a malformed datagram.",
 ["rmc_sub_read.c"],
 [("datagram buffer", "bytes received", "rmc_sub_read.c:multicast_read")],
 [("length checks", "rmc_sub_read.c:process_multicast_read")],
 ["rmc_sub_read", "callbacks, deliveries and acknowledgements"])

prop("C23", "Publisher-side connection callbacks fire exactly once with the peer's address",
 "For each subscriber whose connection the publisher accepts, the connect callback (if set) runs exactly once with that subscriber's IP address and port in host byte order; if it refuses, the connection is closed at once and never receives traffic, otherwise the subscriber is served. "
 "The disconnect callback (if set) runs exactly once when that connection ends for any reason, with the same address and port (whether it runs for a connection that the connect callback refused is left open), and a connection whose acceptance failed triggers neither. "
 "Every poll and memory callback receives the user data most recently set on its context; for a publisher's payload-free callback this is the user data in force when the packet was queued.",
 ["histories", "configurations", "fault_sequences"],
 "every accept outcome, callback decision, reason for a disconnect, peer address and port, and change of user data",
 "the protocol test counts connects and disconnects of one loopback subscriber and ignores address and port.",
 ["rmc_pub_read.c", "rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c"],
 [("remote_address/remote_port", "peer of a connection, host byte order", "rmc_internal.h:rmc_connection"), ("user_data", "application's context data", "rmc_internal.h")],
 [("accept", "rmc_connection.c:rmc_conn_process_accept, rmc_pub_read.c:rmc_pub_read"), ("close", "rmc_pub_read.c:rmc_pub_close_connection")],
 ["subscriber connect and disconnect callbacks", "poll and payload callbacks"])

prop("C24", "Every payload buffer a subscriber allocates is released or handed over once",
 "A subscriber allocates exactly one payload buffer per new packet, of the packet's length, and none for duplicates, announcements or packets it is not subscribed to. "
 "Each buffer ends exactly once: released when the application marks the packet dispatched, kept by the application when it asks to keep it, released when the connection ends before the packet became available, or released when the context is deactivated; it is never released while the application may still use it, and release receives the buffer, its length and the context's user data.",
 ["histories", "fault_sequences"],
 "every sequence of receptions, dispatches (also from within the ready notification), keeps, disconnects and deactivation",
 "sub_test dispatches a few packets and never deactivates with packets outstanding or counts releases.",
 ["rmc_sub_read.c", "rmc_sub_packet.c", "rmc_sub_context.c", "sub.c"],
 [("payload", "buffer of a received packet", "rmc_sub.h:sub_packet"), ("dispatch_ready", "packets available to the application", "rmc_internal.h:rmc_sub_context")],
 [("allocation", "rmc_sub_read.c:decode_subscribed_multicast, process_cmd_packet"), ("release", "rmc_sub_packet.c:rmc_sub_packet_dispatched, sub.c:sub_reset_publisher, rmc_sub_context.c:rmc_sub_deactivate_context")],
 ["payload_alloc and payload_free callbacks of rmc_sub_init_context"])

prop("C25", "Everything published is eventually delivered and the system comes to rest",
 "Once losses stop and both sides keep serving their descriptors and timeouts, every packet multicast after the publisher accepted a subscription that stays up is delivered to that subscriber's application exactly once, in order and unchanged, whatever was lost, duplicated, delayed or reordered before. "
 "After that the system is at rest: nothing queued, owed, unsent or unacknowledged remains, every payload has been released, and no timeout other than the next announcement is pending.",
 ["schedules", "fault_sequences", "histories"],
 "every loss, duplication, reordering and delay pattern, partial writes, stalls, connects and disconnects, for several publishers and subscribers",
 "the protocol tests deliver 1 and 1000 packets over a loss-free loopback to one subscriber.",
 ["pub.c", "sub.c", "rmc_pub_timeout.c", "rmc_sub_timeout.c", "rmc_pub_read.c", "rmc_sub_read.c", "rmc_pub_write.c", "rmc_sub_write.c"],
 [("inflight", "packets owed to a subscriber", "rmc_pub.h:pub_subscriber"), ("max_pid_ready/received_pid", "reception state", "rmc_sub.h:sub_publisher")],
 [("retransmission", "rmc_pub_timeout.c:rmc_pub_timeout_process"), ("acknowledgement", "rmc_sub_timeout.c:rmc_sub_timeout_process"), ("reassembly", "sub.c:sub_process_received_packets")],
 ["packets delivered to every subscriber's application", "pending report", "timers", "payload release"])

prop("C26", "Activation is all-or-nothing and deactivation releases everything",
 "Activating a context opens, binds and registers with polling exactly the descriptors it needs (joining the configured group on the configured interface and port), and if any step fails it returns that step's error with no descriptor left open, registered or counted, so that activation can be tried again. "
 "Deactivating removes every descriptor of the context from polling and closes it, ends every connection, releases the packets it holds for the application or for subscribers, and leaves the context ready to be activated again or deleted; deleting then frees what remains.",
 ["fault_sequences", "histories", "configurations"],
 "a failure of each system call during activation, every state at the time of deactivation, repeated activation and deactivation",
 "the tests activate and deactivate once, successfully, with nothing outstanding.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_connection.c"],
 [("mcast_send_descriptor/listen_descriptor/mcast_recv_descriptor", "descriptors of a context", "rmc_internal.h")],
 [("activation", "rmc_pub_context.c:rmc_pub_activate_context, rmc_sub_context.c:rmc_sub_activate_context"), ("deactivation", "rmc_pub_context.c:rmc_pub_deactivate_context, rmc_sub_context.c:rmc_sub_deactivate_context")],
 ["socket system calls", "poll callbacks", "socket counts", "payload callbacks"])

prop("C27", "Read and write calls report what they did, and fail without effect",
 "A read or write call that is given a result pointer sets it to the documented code of what it did: for a successful call multicast written, TCP data written, connection completed, connection accepted, TCP data read, connection ended by the peer, or multicast received and, for a multicast read, received from a known publisher, from a publisher whose connection is not complete yet, or from a new publisher to which a connection is now being set up. "
 "It is the error code exactly when the call returns an error other than would-block. "
 "Which of several codes is reported when one call received several datagrams, and what is reported for an empty read, a would-block or a datagram that is ignored because its publisher is unknown, is left open. "
 "The pointer may be omitted, as may the callbacks that are optional, without any other effect of the call changing. "
 "A read, write or close call that names a connection that does not exist returns an error and does nothing else.",
 ["inputs", "configurations", "fault_sequences"],
 "every call in every state of every connection, every failing system call beneath it, with and without the optional pointer and callbacks",
 "the protocol tests ignore the result code but for logging; no test fails a system call, names a connection that does not exist, or leaves out poll callbacks.",
 ["rmc_pub_read.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_connection.c", "reliable_multicast.h"],
 [("mode", "state of a connection: closed, connecting or connected", "rmc_internal.h:rmc_connection")],
 [("result codes", "rmc_pub_read.c:rmc_pub_read, rmc_pub_write.c:rmc_pub_write, rmc_sub_read.c:rmc_sub_read, multicast_read, rmc_sub_write.c:rmc_sub_write"), ("connection lookup", "rmc_connection.c:rmc_conn_find_by_index")],
 ["return value and op_res of rmc_pub_read, rmc_pub_write, rmc_sub_read, rmc_sub_write", "system calls and callbacks of those calls"])

prop("C28", "Finished traffic and deleted contexts leave no memory behind",
 "While a context lives, the number of allocations it holds stays within a fixed multiple of its greatest load so far (packets queued, sent and owed, held back or available, receipts to acknowledge, connections): traffic, connections and announcements that are over leave nothing behind. When a context is deleted, everything the library allocated on its behalf has been freed, each piece once: the context itself, its connections, queued, sent, received, held-back and available packets, copies of announcements, acknowledgement intervals and list nodes, whatever it was doing at that moment and whatever happened before, and also after failed activations, failed connections and refused calls. "
 "Buffers and records that the application took over (payloads it keeps after dispatching, and payloads it queued when it has its own release function) are the application's. "
 "A context that cannot be created, because an address cannot be understood, returns an error and leaves nothing behind. No freed memory is used again.",
 ["histories", "fault_sequences", "configurations"],
 "every history of a context up to its deletion, active or not, with the default memory functions or the application's own",
 "no test counts allocations, and most exit without deleting a context that has work outstanding.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_sub_packet.c", "rmc_pub_packet.c", "pub.c", "sub.c", "rmc_list_template.h", "rmc_connection.c"],
 [("packets and intervals", "heap records of a context", "rmc_pub.h:pub_packet, rmc_sub.h:sub_packet, sub_pid_interval"), ("conn_vec", "connections of a context", "rmc_internal.h")],
 [("deletion", "rmc_pub_context.c:rmc_pub_delete_context, rmc_sub_context.c:rmc_sub_delete_context"), ("failed creation", "rmc_pub_context.c:rmc_pub_init_context, rmc_sub_context.c:rmc_sub_init_context"), ("release of packets", "rmc_sub_packet.c:rmc_sub_packet_dispatched, pub.c:pub_packet_ack, sub.c:sub_reset_publisher")],
 ["heap allocations and releases between creation and deletion of a context", "live allocations after every call"])

prop("C29", "A peer that breaks the protocol can neither hang nor break a context",
 "Whatever bytes a connected peer writes and whatever datagrams arrive (truncated or unknown commands, lengths that contradict the data or exceed any queue, acknowledgements that are inverted, overlapping, repeated, of packets never sent or already acknowledged, or that span up to the whole range of packet numbers) every call of the library returns, with an amount of work bounded by the bytes received and the packets held, and touches no memory it does not own. "
 "An acknowledgement acknowledges exactly the packets owed to that peer whose numbers it contains, and nothing else. A connection whose peer sends an unknown command or one that can never be complete is ended with a protocol error, its slot and descriptor are released, and the packets it was owed are no longer owed to it. "
 "What is delivered to, owed to, acknowledged for or reported about every other peer is the same as if that peer had simply disconnected, and its packets are still released when every other subscriber has acknowledged them.",
 ["inputs", "histories", "configurations"],
 "every byte stream and every datagram, every acknowledged range relative to the packets owed (including the extremes of the number space), at every point of the life of a context with other well-behaved peers",
 "the peers of the tests are the library itself; no test sends a malformed command, an odd acknowledgement or an uncompletable message.",
 ["rmc_pub_read.c", "rmc_sub_read.c", "rmc_protocol.c", "pub.c", "sub.c", "rmc_proto.h"],
 [("inflight", "packets owed to a subscriber", "rmc_pub.h:pub_subscriber"), ("read_buf", "bytes read and not yet interpreted", "rmc_internal.h:rmc_connection")],
 [("commands of subscribers", "rmc_pub_read.c:process_cmd_ack_interval, process_control_message, rmc_pub_read"), ("commands of publishers", "rmc_sub_read.c:process_cmd_packet, rmc_sub_read"), ("datagrams", "rmc_sub_read.c:decode_subscribed_multicast, multicast_read")],
 ["return value of rmc_pub_read and rmc_sub_read", "payload release", "deliveries and connections of other peers", "pending report"])

prop("C30", "The library may be called from within its own callbacks",
 "A call that the application makes from within a callback (queueing a packet, setting the announcement interval or closing a connection from the publisher's connect, disconnect, control message and announcement callbacks; queueing from the payload release callback; "
 "taking packets, sending control messages or closing a connection from the subscriber's announcement, completion and packet ready callbacks; deactivating the context from any of these but the disconnect and the payload release callback) returns and does what it would if it were made right after the callback's own event: nothing is lost, delivered, released, reported or closed twice, and what the interrupted call still has to do, it does on the state the inner call left. "
 "A connection closed from within a callback is finished with: nothing more is read from it, interpreted, written to it or polled under its index or descriptor, whatever the interrupted call was doing with it, and a context deactivated from within one reads, connects to and polls nothing more. "
 "(Closing a connection whose own disconnect callback is running is not meant.)",
 ["inputs", "histories", "configurations"],
 "every combination of callback, inner call and interrupted call, with any number of commands and packets read at once, any number of connections and any state of the queues",
 "the callbacks of the tests only record, or take packets; none closes a connection or queues from within one.",
 ["rmc_pub_read.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_pub_timeout.c", "rmc_pub_context.c", "pub.c", "sub.c", "rmc_protocol.c"],
 [("dispatch_ready", "packets available to the application", "rmc_internal.h:rmc_sub_context"), ("connections", "connection vector", "rmc_internal.h:rmc_connection_vector")],
 [("control message", "rmc_pub_read.c:process_control_message, rmc_pub_read"), ("packet ready", "rmc_sub_read.c:process_cmd_packet, decode_subscribed_multicast, rmc_sub_read"), ("announcement, connect, disconnect, completion", "rmc_pub_timeout.c:rmc_pub_timeout_process, rmc_pub_read.c:rmc_pub_close_connection, rmc_sub_write.c:rmc_sub_write")],
 ["return values of inner and outer call", "packets queued, sent, delivered and released", "poll callbacks and descriptors", "pending report"])

prop("C31", "Logging obeys its level and changes nothing else",
 "The installed logging macros write a message exactly if its level is at most the level last set (none at first), as one line with the level's tag ([F], [E], [W], [I], [C], [D]) and the formatted text, and leave errno as it was; setting a level outside 0 to 6 fails and changes nothing. "
 "A call of the library writes nothing beyond the level set, and nothing at all at level 0 (the refusal of an illegal level excepted). "
 "Whatever the level, when it is changed, and whether or not colours or a start time are set: every call has the same effects, results, callbacks and error codes as it would have without logging.",
 ["inputs", "histories", "configurations"],
 "every history of calls with every sequence of level changes, on every path that logs (including the failing ones)",
 "the tests run at one level and look at neither the log nor the effect of the level.",
 ["rmc_log.c", "rmc_log.h"],
 [("_rmc_log_level", "the level set", "rmc_log.c")],
 [("messages", "rmc_log.c:rmc_log", ), ("level", "rmc_log.c:rmc_set_log_level"), ("error codes", "every caller that logs before it returns errno")],
 ["standard output", "errno", "everything the other properties observe"])

prop("C32", "Contexts in one process do not affect each other",
 "What a context does - its results, callbacks and their arguments, queries, poll requests, what it sends, opens and closes, which payloads it asks for and releases - depends only on the calls made on it, on what its own descriptors deliver, and on the time. "
 "It is the same whether or not the process has other contexts (publishers or subscribers, of the same or of other node identifiers, groups and addresses), whatever calls are made on those, and also if those calls are made from within this context's callbacks (a relay that publishes on one context what it receives on another).",
 ["inputs", "histories", "schedules"],
 "every pair of histories of calls and every interleaving of them, including calls nested in the other context's callbacks",
 "the tests use one context per process.",
 ["rmc_pub_*.c", "rmc_sub_*.c", "rmc_connection.c", "rmc_protocol.c", "sub.c", "pub.c", "circular_buffer.c", "rmc_list_template.h"],
 [("no state outside the context", "a call keeps nothing in static or shared memory", "all")],
 [("multicast receive buffer", "rmc_sub_read.c:multicast_read"), ("announcement buffer", "rmc_pub_timeout.c"), ("command dispatch tables", "rmc_pub_read.c, rmc_sub_read.c")],
 ["everything the other properties observe, of each context"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
