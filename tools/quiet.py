#!/usr/bin/env python3
"""Edits of the library that keep its behaviour: the checks must stay quiet on them. A development aid; no check uses it.
Usage: quiet.py [-e EDIT…] [-t DIR] [PROP…]   applies the edits (all compatible ones by default) to a scratch copy of /repo and
runs the quick checks of the named properties (all by default) against it. -t DIR only leaves the edited copy in DIR."""
import os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = {}


def edit(name, *subs):
    E[name] = subs


edit("slot-from-top", ("rmc_connection.c", """    while(ind < conn_vec->size) {
        if (conn_vec->connections[ind].descriptor == -1) {
            if (conn_vec->max_connection_ind < ind ||
                conn_vec->max_connection_ind == RMC_NIL_INDEX)
                conn_vec->max_connection_ind = ind;

            RMC_LOG_DEBUG("Allocating slot %d. max is %d", ind, conn_vec->max_connection_ind);
            return ind;
        }
        ++ind;
    }
""", """    for (ind = conn_vec->size; ind-- > 0; ) {
        if (conn_vec->connections[ind].descriptor != -1)
            continue;
        if (conn_vec->max_connection_ind < ind ||
            conn_vec->max_connection_ind == RMC_NIL_INDEX)
            conn_vec->max_connection_ind = ind;
        return ind;
    }
"""))
edit("set-nonblocking-helper", ("rmc_connection.c", """static rmc_index_t _get_free_slot(""", """static void _set_nonblocking(int fd)
{
    int fl = fcntl(fd, F_GETFL, 0);
    fcntl(fd, F_SETFL, fl | O_NONBLOCK);
    fcntl(fd, F_SETFD, FD_CLOEXEC);
}

static rmc_index_t _get_free_slot("""), ("rmc_connection.c", """    desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
    fcntl(conn_vec->connections[c_ind].descriptor, F_SETFL, desc_flags | O_NONBLOCK);
""", """    _set_nonblocking(conn_vec->connections[c_ind].descriptor);
""", 2))
edit("accept4", ("rmc_connection.c", """    conn_vec->connections[c_ind].descriptor = accept(listen_descriptor,
                                                      (struct sockaddr*) &src_addr,
                                                      &addr_len);
""", """    conn_vec->connections[c_ind].descriptor = accept4(listen_descriptor,
                                                      (struct sockaddr*) &src_addr,
                                                      &addr_len, SOCK_NONBLOCK | SOCK_CLOEXEC);
"""))
edit("accept-then-slot", ("rmc_connection.c", """    conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);

    conn_vec->connections[c_ind].action = RMC_POLLREAD;
""", """    conn_vec->active_connection_count++;
    conn_vec->connections[c_ind].action = RMC_POLLREAD;
    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);
    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
    conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;

"""), ("rmc_connection.c", """    if (conn_vec->poll_modify)
        (*conn_vec->poll_modify)(conn_vec->user_data,
                                 listen_descriptor,
                                 RMC_LISTEN_INDEX,
                                 RMC_POLLREAD,
                                 RMC_POLLREAD);

    if (result_index)
        *result_index = c_ind;

    conn_vec->active_connection_count++;
    return 0;""", """    if (result_index)
        *result_index = c_ind;

    if (conn_vec->poll_modify)
        (*conn_vec->poll_modify)(conn_vec->user_data,
                                 listen_descriptor,
                                 RMC_LISTEN_INDEX,
                                 RMC_POLLREAD,
                                 RMC_POLLREAD);

    return 0;"""))
edit("find-for-loop", ("rmc_connection.c", """    while(ind <= conn_vec->max_connection_ind) {
//        strcpy(have""", """    for (ind = conn_vec->max_connection_ind + 1; ind-- > 0; ) {
//        strcpy(have"""), ("rmc_connection.c", """            return &conn_vec->connections[ind];

        ++ind;
    }
    return 0;
}

rmc_connection_t* rmc_conn_find_by_index""", """            return &conn_vec->connections[ind];
    }
    return 0;
}

rmc_connection_t* rmc_conn_find_by_index"""))
edit("close-order", ("rmc_connection.c", """    // Ok if this fails due to connection is still
    // in progress of being setup.
    shutdown(conn->descriptor, SHUT_RDWR);

    // Finalize connection shutdown.
    // Delete from caller's poll vector.
    if (conn_vec->poll_remove)
        (*conn_vec->poll_remove)(conn_vec->user_data,
                                 conn->descriptor,
                                 s_ind);
""", """    // Delete from caller's poll vector.
    if (conn_vec->poll_remove)
        (*conn_vec->poll_remove)(conn_vec->user_data,
                                 conn->descriptor,
                                 s_ind);

    shutdown(conn->descriptor, SHUT_RDWR);
"""), ("rmc_connection.c", """    rmc_conn_reset_connection(conn, s_ind);

    if (s_ind == conn_vec->max_connection_ind)
        _reset_max_connection_ind(conn_vec);

    conn_vec->active_connection_count--;
""", """    conn_vec->active_connection_count--;
    rmc_conn_reset_connection(conn, s_ind);
    _reset_max_connection_ind(conn_vec);
"""))
edit("connect-getpeer", ("rmc_connection.c", """    // Disable Nagle algorithm since latency is of essence when we send
    // out acks.
    if (setsockopt( conn->descriptor,""", """    {
        int keep = 1;
        struct sockaddr_in peer;
        socklen_t plen = sizeof(peer);
        setsockopt(conn->descriptor, SOL_SOCKET, SO_KEEPALIVE, &keep, sizeof(keep));
        getpeername(conn->descriptor, (struct sockaddr*) &peer, &plen);
        errno = 0;
    }
    // Disable Nagle algorithm since latency is of essence when we send
    // out acks.
    if (setsockopt( conn->descriptor,"""))
edit("write-sendmsg", ("rmc_protocol.c", """    res = writev(conn->descriptor, iov, seg2_len?2:1);
""", """    {
        struct msghdr mh;
        memset(&mh, 0, sizeof(mh));
        mh.msg_iov = iov;
        mh.msg_iovlen = seg2_len?2:1;
        res = sendmsg(conn->descriptor, &mh, MSG_NOSIGNAL | MSG_DONTWAIT);
    }
"""))
edit("write-one-segment", ("rmc_protocol.c", """    res = writev(conn->descriptor, iov, seg2_len?2:1);
""", """    res = send(conn->descriptor, seg1, seg1_len, MSG_NOSIGNAL);
    if (res == seg1_len && seg2_len) {
        ssize_t more = send(conn->descriptor, seg2, seg2_len, MSG_NOSIGNAL);
        if (more > 0)
            res += more;
        errno = 0;
    }
"""))
edit("read-recv", ("rmc_protocol.c", """    res = readv(conn->descriptor, iov, 2);
""", """    {
        struct msghdr mh;
        memset(&mh, 0, sizeof(mh));
        mh.msg_iov = iov;
        mh.msg_iovlen = seg2_len?2:1;
        res = recvmsg(conn->descriptor, &mh, 0);
    }
"""))
edit("dispatch-loop", ("rmc_protocol.c", """        while(current->dispatch) {
            if (command != current->command) {
                ++current;
                continue;
            }
""", """        for (; current->dispatch; ++current) {
            if (command != current->command)
                continue;
"""))
edit("mcast-recvmsg", ("rmc_sub_read.c", """        len = recvfrom(ctx->mcast_recv_descriptor,
                       buffer, sizeof(buffer),
                       MSG_DONTWAIT,
                       (struct sockaddr*) &src_addr, &addr_len);
""", """        struct iovec iov = { .iov_base = buffer, .iov_len = sizeof(buffer) };
        struct msghdr mh = { .msg_name = &src_addr, .msg_namelen = addr_len, .msg_iov = &iov, .msg_iovlen = 1 };
        len = recvmsg(ctx->mcast_recv_descriptor, &mh, MSG_DONTWAIT);
"""))
edit("mcast-sendto", ("rmc_pub_write.c", """    res = sendmsg(ctx->mcast_send_descriptor, &msg_hdr, MSG_DONTWAIT);
""", """    {
        char* flat = malloc(sizeof(pack_hdr) + pack->payload_len);
        memcpy(flat, &pack_hdr, sizeof(pack_hdr));
        memcpy(flat + sizeof(pack_hdr), pack->payload, pack->payload_len);
        res = sendto(ctx->mcast_send_descriptor, flat, sizeof(pack_hdr) + pack->payload_len, MSG_DONTWAIT,
                     (struct sockaddr*) &sock_addr, sizeof(sock_addr));
        int e = errno;
        free(flat);
        errno = e;
    }
"""))
edit("rearm-once", ("rmc_pub_write.c", """    while(pack) {
        if ((res = send_single_multicast_packet(ctx, pack)))
            break;

        ++count;
        pack = pub_next_queued_packet(pctx);
    }
""", """    for (; pack && !res; pack = pub_next_queued_packet(pctx)) {
        res = send_single_multicast_packet(ctx, pack);
        count += !res;
    }
"""))
edit("free-before-rearm", ("rmc_pub_read.c", """    rmc_conn_close_connection(&ctx->conn_vec, s_ind);

    RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
    pub_reset_subscriber(&ctx->subscribers[s_ind],
                         ctx->payload_free?ctx->payload_free:_generic_payload_free);
""", """    pub_reset_subscriber(&ctx->subscribers[s_ind],
                         ctx->payload_free?ctx->payload_free:_generic_payload_free);
    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
"""))
edit("disconnect-cb-last", ("rmc_pub_read.c", """    if (ctx->subscriber_disconnect_cb) {
        (*ctx->subscriber_disconnect_cb)(ctx, conn->remote_address, conn->remote_port);
    }

    rmc_conn_close""", """    uint32_t raddr = conn->remote_address;
    uint16_t rport = conn->remote_port;

    rmc_conn_close"""), ("rmc_pub_read.c", """        ctx->traffic_suspended = 0;

    return 0;
}

int rmc_pub_read(""", """        ctx->traffic_suspended = 0;

    if (ctx->subscriber_disconnect_cb)
        (*ctx->subscriber_disconnect_cb)(ctx, raddr, rport);
    return 0;
}

int rmc_pub_read("""))
edit("ack-interval-clamp", ("rmc_pub_read.c", """    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)
        rmc_pub_packet_ack(ctx, conn, pid) ;
    return 0;""", """    pid = ack.last_pid;
    while (pid >= ack.first_pid && pid + 1 != 0) {
        rmc_pub_packet_ack(ctx, conn, pid);
        if (pid-- == 0)
            break;
    }
    return 0;"""))
edit("poll-only-on-change", ("rmc_pub_read.c", """    if (ctx->conn_vec.poll_modify)
        (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                     conn->descriptor,
                                     s_ind,
                                     old_action,
                                     conn->action);

    return res;""", """    if (ctx->conn_vec.poll_modify && old_action != conn->action)
        (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                     conn->descriptor,
                                     s_ind,
                                     old_action,
                                     conn->action);

    return res;"""), ("rmc_pub_write.c", """    if (ctx->conn_vec.poll_modify)
        (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                     conn->descriptor,
                                     s_ind,
                                     old_action,
                                     conn->action);

    // Did""", """    if (ctx->conn_vec.poll_modify && old_action != conn->action)
        (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                     conn->descriptor,
                                     s_ind,
                                     old_action,
                                     conn->action);

    // Did"""), ("rmc_sub_write.c", """    if (ctx->conn_vec.poll_modify)
        (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                     conn->descriptor,
                                     s_ind,
                                     old_action,""", """    if (ctx->conn_vec.poll_modify && old_action != conn->action)
        (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                     conn->descriptor,
                                     s_ind,
                                     old_action,"""))
edit("subscribers-head-push", ("pub.c", """    pub_sub_list_push_tail(&ctx->subscribers, sub);
""", """    pub_sub_list_push_head(&ctx->subscribers, sub);
"""))
edit("resend-reverse-subs", ("rmc_pub_timeout.c", """    while(pub_sub_list_pop_head(&subs, &sub)) {
""", """    while(pub_sub_list_pop_tail(&subs, &sub)) {
"""))
edit("oldest-loop", ("pub.c", """    while(sub_node)  {
        // Check if the oldest inflight packet of this subscriber is older
        // than the oldest inflight packet found so far.
        pub_packet_list_t* lst = &sub_node->data->inflight;
        pub_packet_t* pack = 0;
        if (!pub_packet_list_size(lst)) {
            sub_node = pub_sub_list_next(sub_node);
            continue;
        }
        pack = pub_packet_list_tail(lst)->data;
        if (oldest == -1 || pack->send_ts < oldest) {
            oldest = pack->send_ts;
        }
        sub_node = pub_sub_list_next(sub_node);
    }
""", """    for (; sub_node; sub_node = pub_sub_list_next(sub_node)) {
        pub_packet_node_t* last = pub_packet_list_tail(&sub_node->data->inflight);

        if (last && (oldest == -1 || last->data->send_ts < oldest))
            oldest = last->data->send_ts;
    }
"""))
edit("ack-from-head", ("pub.c", """    node = pub_packet_list_tail(&sub->inflight);

    while(node) {
        if (node->data->pid == pid)
            break;

        node = pub_packet_list_prev(node);
    }
""", """    for (node = pub_packet_list_head(&sub->inflight); node; node = pub_packet_list_next(node))
        if (node->data->pid == pid)
            break;
"""))
edit("reset-from-head", ("pub.c", """    while((node = pub_packet_list_tail(&sub->inflight)))
        pub_packet_ack(""", """    while((node = pub_packet_list_head(&sub->inflight)))
        pub_packet_ack("""))
edit("release-helper", ("pub.c", """    if (pack->payload_is_copy)
        free(pack->payload);
    else if (pub_payload_free)
        (*pub_payload_free)(pack->payload,
                            pack->payload_len,
                            pack->pkg_user_data);

    _free_pending_packet(pack);
}

void pub_packet_ack(""", """    _drop_payload(pack, pub_payload_free);
}

void pub_packet_ack("""), ("pub.c", """    if (!pack->ref_count) {
        pub_packet_list_delete(pack->parent_node);

        // Free data using function provided with this call.
        if (pub_payload_free)
            (*pub_payload_free)(pack->payload,
                                pack->payload_len,
                                pack->pkg_user_data);

        // Delete the pack.
        _free_pending_packet(pack);
    }
""", """    if (pack->ref_count == 0) {
        pub_packet_list_delete(pack->parent_node);
        _drop_payload(pack, pub_payload_free);
    }
"""), ("pub.c", """static packet_id_t _next_pid(""", """static void _drop_payload(pub_packet_t* pack, void (*pub_payload_free)(void*, payload_len_t, user_data_t))
{
    pub_packet_t gone = *pack;

    _free_pending_packet(pack);
    if (gone.payload_is_copy)
        free(gone.payload);
    else if (pub_payload_free)
        (*pub_payload_free)(gone.payload, gone.payload_len, gone.pkg_user_data);
}

static packet_id_t _next_pid("""))
edit("queue-poll-first", ("rmc_pub_packet.c", """    // If this is an announcement, force PID to 0.
    // If""", """    if (ctx->traffic_suspend_threshold > 0 && !announce_flag && 0)
        return EINVAL;
    // If this is an announcement, force PID to 0.
    // If"""))
edit("announce-zero-buffer", ("rmc_pub_timeout.c", """        char buffer[RMC_MAX_PAYLOAD];
""", """        char buffer[RMC_MAX_PAYLOAD] = { 0 };
"""))
edit("timeout-get-next", ("rmc_pub_timeout.c", """    if (announce_timeout_ts != -1 && ack_timeout_ts == -1) {
        *result_ts = announce_timeout_ts;
        return 0;
    }

    if (announce_timeout_ts == -1 && ack_timeout_ts != -1) {
        *result_ts = ack_timeout_ts;
        return 0;
    }
""", """    if (announce_timeout_ts == -1 || ack_timeout_ts == -1) {
        *result_ts = (ack_timeout_ts == -1) ? announce_timeout_ts : ack_timeout_ts;
        return 0;
    }
"""))
edit("sub-timeout-peek", ("rmc_sub_timeout.c", """        while(sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv)) {
            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
            if (res) {
                RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));

                // Keep the interval for a later attempt, and carry on
                // with the other publishers.
                sub_pid_interval_list_push_head(&pub->received_interval, pid_intv);
                ret = res;
                break;
            }
        }
""", """        while(sub_pid_interval_list_head(&pub->received_interval)) {
            pid_intv = sub_pid_interval_list_head(&pub->received_interval)->data;
            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
            if (res) {
                ret = res;
                break;
            }
            sub_pid_interval_list_delete(sub_pid_interval_list_head(&pub->received_interval));
        }
"""))
edit("sub-ack-list-head", ("rmc_sub_packet.c", """        rmc_index_list_push_tail(&ctx->pub_ack_list, index);
""", """        rmc_index_list_push_head(&ctx->pub_ack_list, index);
"""))
edit("dispatched-free-first", ("rmc_sub_packet.c", """    int res = rmc_sub_packet_dispatched_keep_payload(ctx, pack);

    if (res)
        return res;

    if (ctx->payload_free)
        (*ctx->payload_free)(pack->payload, pack->payload_len, ctx->user_data);
    else
        free(pack->payload);

    free(pack);
    return 0;
""", """    void* payload = pack ? pack->payload : 0;
    payload_len_t len = pack ? pack->payload_len : 0;
    int res = rmc_sub_packet_dispatched_keep_payload(ctx, pack);

    if (!res) {
        if (ctx->payload_free)
            (*ctx->payload_free)(payload, len, ctx->user_data);
        else
            free(payload);
        free(pack);
    }

    return res;
"""))
edit("sub-no-dup-alloc", ("rmc_sub_read.c", """    memcpy(payload_copy, payload, pack_hdr->payload_len);

    start""", """    for (uint32_t i = 0; i < pack_hdr->payload_len; ++i)
        payload_copy[i] = payload[i];

    start"""))
edit("circ-alloc-bytes", ("circular_buffer.c", """    // Can we fit the requested number of bytes into a single segmetn?
    if (buf_size - circ_buf->stop_ind >= len) {
        *segment1 = &circ_buf->buffer[circ_buf->stop_ind];
        *segment1_len = len;
        *segment2 = 0;
        *segment2_len = 0;
        circ_buf->stop_ind += len;

        // Wrap, so that the next allocation does not start with an
        // empty first segment outside the buffer.
        if (circ_buf->stop_ind == buf_size)
            circ_buf->stop_ind = 0;
        return 0;
    }
""", """    if (len <= buf_size - circ_buf->stop_ind) {
        *segment2 = 0;
        *segment2_len = 0;
        *segment1 = circ_buf->buffer + circ_buf->stop_ind;
        *segment1_len = len;
        circ_buf->stop_ind = (circ_buf->stop_ind + len) % buf_size;
        return 0;
    }
"""))
edit("circ-read-bytes", ("circular_buffer.c", """    if (circ_buf->stop_ind >= start_ind) {
        memcpy(target, circ_buf->buffer + start_ind, len);
""", """    if (circ_buf->stop_ind >= start_ind) {
        uint32_t i = 0;
        for (i = 0; i < len; ++i)
            target[i] = circ_buf->buffer[start_ind + i];
"""), ("circular_buffer.c", """    circ_buf->start_ind += size;
    circ_buf->start_ind %= circ_buf->size;
""", """    circ_buf->start_ind = (size < circ_buf->size - circ_buf->start_ind) ?
        circ_buf->start_ind + size : size - (circ_buf->size - circ_buf->start_ind);
"""))
edit("circ-trim-back", ("circular_buffer.c", """    circ_buf->stop_ind = (circ_buf->start_ind + target_len) % circ_buf->size;
    return;""", """    if (circ_buf->stop_ind >= in_use - target_len)
        circ_buf->stop_ind -= in_use - target_len;
    else
        circ_buf->stop_ind = circ_buf->size - (in_use - target_len - circ_buf->stop_ind);
    return;"""))
edit("list-sorted-helper", ("rmc_list_template.h", """        while(LISTTYPE##_size(list))                                    \\
            LISTTYPE##_delete(list->head);                              \\
""", """        while(list->tail)                                               \\
            LISTTYPE##_delete(list->tail);                              \\
"""))
edit("activate-order", ("rmc_pub_context.c", """        (*ctx->conn_vec.poll_add)(ctx->user_data,
                                  ctx->mcast_send_descriptor,
                                  RMC_MULTICAST_INDEX,
                                  // Do we have packets that were queued before activation?
                                  RMC_POLLREAD |
                                  (pub_queue_size(&ctx->pub_ctx)?RMC_POLLWRITE:0));

        (*ctx->conn_vec.poll_add)(ctx->user_data,
                                  ctx->listen_descriptor,
                                  RMC_LISTEN_INDEX,
                                  RMC_POLLREAD);
""", """        (*ctx->conn_vec.poll_add)(ctx->user_data,
                                  ctx->listen_descriptor,
                                  RMC_LISTEN_INDEX,
                                  RMC_POLLREAD);

        (*ctx->conn_vec.poll_add)(ctx->user_data,
                                  ctx->mcast_send_descriptor,
                                  RMC_MULTICAST_INDEX,
                                  // Do we have packets that were queued before activation?
                                  RMC_POLLREAD |
                                  (pub_queue_size(&ctx->pub_ctx)?RMC_POLLWRITE:0));
"""), ("rmc_pub_context.c", """    if (setsockopt(ctx->listen_descriptor, SOL_SOCKET,
                   SO_REUSEPORT,""", """    {
        int buf = 1 << 20;
        setsockopt(ctx->mcast_send_descriptor, SOL_SOCKET, SO_SNDBUF, &buf, sizeof(buf));
    }
    if (setsockopt(ctx->listen_descriptor, SOL_SOCKET,
                   SO_REUSEPORT,"""))
edit("deactivate-order", ("rmc_pub_context.c", """    if (max != RMC_NIL_INDEX) {
        for(ind = 0; ind <= max; ++ind) {
            rmc_connection_t*""", """    if (max != RMC_NIL_INDEX) {
        for(ind = max + 1; ind-- > 0; ) {
            rmc_connection_t*"""))
edit("sub-deactivate-order", ("rmc_sub_context.c", """    // Empty all packets that are dispatch ready.
    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
        rmc_sub_packet_dispatched(ctx, pack);

    // Empty ack list
    rmc_index_list_empty(&ctx->pub_ack_list);
""", ""), ("rmc_sub_context.c", """        rmc_sub_close_connection(ctx, ind);
    }

    return 0;""", """        rmc_sub_close_connection(ctx, ind);
    }

    // Empty all packets that are dispatch ready.
    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
        rmc_sub_packet_dispatched(ctx, pack);

    // Empty ack list
    rmc_index_list_empty(&ctx->pub_ack_list);
    return 0;"""))
edit("sub-init-calloc", ("rmc_sub_context.c", """    ctx = (rmc_sub_context_t*) malloc(sizeof(rmc_sub_context_t));""", """    ctx = (rmc_sub_context_t*) calloc(1, sizeof(rmc_sub_context_t));"""),
     ("rmc_pub_context.c", """    ctx = (rmc_pub_context_t*) malloc(sizeof(rmc_pub_context_t));""", """    ctx = (rmc_pub_context_t*) calloc(1, sizeof(rmc_pub_context_t));"""))
edit("sub-process-while", ("sub.c", """    while(node) {
        if (pub->max_pid_ready &&
            node->data->pid != pub->max_pid_ready + 1)
            break;
""", """    for (; node && (!pub->max_pid_ready || node->data->pid == pub->max_pid_ready + 1); ) {
"""))
edit("clock-again", ("rmc_sub_packet.c", """    sub_publisher_t* pub = &ctx->publishers[index];

""", """    sub_publisher_t* pub = &ctx->publishers[index];

    if (rmc_usec_monotonic_timestamp() < 0)
        return EINVAL;
"""))
edit("sctl-one-alloc", ("rmc_sub_write.c", """        // Copy in packet header
        memcpy(seg1, (uint8_t*) payload, seg1_len);

       if (seg2_len)
            memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);
""", """        memcpy(seg1, (uint8_t*) payload, seg1_len);
        memmove(seg2_len ? seg2 : seg1, ((uint8_t*) payload) + (seg2_len ? seg1_len : 0), seg2_len ? seg2_len : seg1_len);
"""))
edit("dup-loop", ("sub.c", """    sub_packet_list_find_node_rev(&pub->received_pid,
                                  &cmp_pack,
                                  _is_duplicate, &is_duplicate);

    if (is_duplicate == 1) {
        return 1;
    }
    return 0;
""", """    (void) cmp_pack;
    (void) _is_duplicate;
    for (sub_packet_node_t* n = sub_packet_list_head(&pub->received_pid); n && !is_duplicate; n = sub_packet_list_next(n))
        is_duplicate = (n->data->pid == pid);
    return is_duplicate;
"""))
edit("interval-from-head", ("sub.c", """    inode = sub_pid_interval_list_tail(&pub->received_interval);

    while(inode) {
        // Is pid greater""", """    for (sub_pid_interval_node_t *a = 0, *b = sub_pid_interval_list_head(&pub->received_interval); ; a = b, b = sub_pid_interval_list_next(b)) {
        int onto, into;
        sub_pid_interval_t one = { .first_pid = pid, .last_pid = pid };
        if (b && b->data.first_pid <= pid)
            continue;
        onto = a && a->data.last_pid == pid - 1;
        into = b && b->data.first_pid == pid + 1;
        if (onto && into) {
            a->data.last_pid = b->data.last_pid;
            if (b->data.receive_ts < a->data.receive_ts)
                a->data.receive_ts = b->data.receive_ts;
            sub_pid_interval_list_delete(b);
            return -1;
        }
        if (onto) {
            a->data.last_pid++;
            return 0;
        }
        if (into) {
            b->data.first_pid--;
            return 0;
        }
        one.receive_ts = rmc_usec_monotonic_timestamp();
        if (a)
            sub_pid_interval_list_insert_after(a, one);
        else
            sub_pid_interval_list_push_head(&pub->received_interval, one);
        return 1;
    }
    inode = sub_pid_interval_list_tail(&pub->received_interval);

    while(inode) {
        // Is pid greater"""))
edit("queue-push-head", ("pub.c", """    ppack->parent_node =
        pub_packet_list_insert_sorted(&ctx->queued,
                                      ppack,
                                      _compare_pid,
                                      0);
""", """    if (pid)
        ppack->parent_node = pub_packet_list_push_head(&ctx->queued, ppack);
    else
        ppack->parent_node = pub_packet_list_insert_sorted(&ctx->queued, ppack, _compare_pid, 0);
"""))
edit("sent-push-head", ("pub.c", """        pub_packet_list_insert_sorted(&sub->inflight,
                                      pack,
                                      _compare_pid, 0);
        pack->ref_count++;
""", """        ++pack->ref_count;
        pub_packet_list_push_head(&sub->inflight, pack);
"""))
SETS = [[n for n in E if n not in ("write-one-segment", "disconnect-cb-last", "find-for-loop")],
        ["write-one-segment", "disconnect-cb-last", "find-for-loop"]]


def tree(names, dst):
    shutil.copytree("/repo", dst, ignore=shutil.ignore_patterns(".git"))
    for n in names:
        for s in E[n]:
            p = os.path.join(dst, s[0])
            t = open(p).read()
            want = s[3] if len(s) > 3 else 1
            if t.count(s[1]) != want:
                raise SystemExit("%s: %d occurrences in %s" % (n, t.count(s[1]), s[0]))
            open(p, "w").write(t.replace(s[1], s[2]))


def main(av):
    names = []
    while av[:1] == ["-e"]:
        names.append(av[1])
        av = av[2:]
    names = names or SETS[0]
    if av[:1] == ["-t"]:
        return tree(names, av[1])
    props = av or ["C%02d" % i for i in range(1, 33)]
    d = tempfile.mkdtemp(prefix="quiet.")
    t = os.path.join(d, "repo")
    tree(names, t)
    bad = 0
    try:
        ev = dict(os.environ, VP_REPO=t, VERIF_SEED="1", VERIF_TIER="quick")
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/check.py"), p, "quick"], capture_output=True, text=True, env=ev)
            print(p, r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else "", flush=True)
            bad |= r.returncode != 0
    finally:
        shutil.rmtree(d)
    return bad


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
