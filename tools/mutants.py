# (id, property, file, old text, new text[, occurrence])   -- behaviour-changing edits used to measure the checks
C = "src/conn.cpp"; CH = "include/salticidae/conn.h"; N = "include/salticidae/network.h"; E = "include/salticidae/event.h"
Q = "include/salticidae/queue.h"; B = "include/salticidae/buffer.h"; R = "include/salticidae/ref.h"; MS = "include/salticidae/msg.h"
S = "include/salticidae/stream.h"; U = "src/util.cpp"; UH = "include/salticidae/util.h"; NA = "include/salticidae/netaddr.h"; CR = "include/salticidae/crypto.h"
M = [
# ---- P01
("m01a", "P01", C, "conn->ev_socket.add(conn->ready_recv ? 0 : FdEvent::READ);\n    conn->ready_send = true;", "conn->ready_send = true;", 0),
("m01b", "P01", C, "            /* wait for the next write callback */\n            conn->ready_send = false;\n", "", 0),
("m01c", "P01", CH, "conn->ev_socket.add((conn->ready_recv ? 0 : FdEvent::READ) |\n                                        FdEvent::WRITE);", "conn->ev_socket.add(FdEvent::WRITE);"),
("m01d", "P01", C, "bytearray_t(buff_seg.begin() + ret, buff_seg.end()));", "bytearray_t(buff_seg.begin(), buff_seg.end()));", 1),
("m01e", "P01", N, "conn->msg_sleep = false;\n                try", "try"),
("m01f", "P01", N, "if (++cnt == burst_size) return true;", "if (++cnt == burst_size) return false;"),
("m01g", "P01", C, "if (ret < 0 && tls->get_error(ret) != SSL_ERROR_WANT_WRITE)", "if (ret < 0 && errno != EWOULDBLOCK)"),
("m01h", "P01", N, "(conn->ready_send ? 0: FdEvent::WRITE));", "FdEvent::WRITE);"),
("m01i", "P01", C, "ret = tls->recv(buff_seg.data(), recv_chunk_size);", "ret = tls->recv(buff_seg.data(), recv_chunk_size); if (ret == 1) ret = 0;"),
("m01j", "P01", E, "nfd.reset();\n                    //", "//"),
# ---- P02
("m02a", "P02", N, "if (msg.get_length() > max_msg_size)", "if (msg.get_length() > max_msg_size + 8)"),
("m02b", "P02", N, "                SALTICIDAE_LOG_WARN(\"checksums do not match, dropping the message\");\n                continue;", "                SALTICIDAE_LOG_WARN(\"checksums do not match, dropping the message\");\n                break;"),
("m02c", "P02", N, "            } catch (std::exception &e) {", "            } catch (std::runtime_error &e) {"),
("m02d", "P02", MS, "memmove(&res, &*tmp.begin(), 4);", "memmove(&res, &*tmp.begin(), 2); res &= 0xffff;"),
("m02e", "P02", N, "                this->worker_terminate(conn);\n            }\n        });\n    }\n\n    template<typename Func>\n    inline void set_handler", "            }\n        });\n    }\n\n    template<typename Func>\n    inline void set_handler"),
# ---- P03
("m03a", "P03", N, "conn->msg_sleep = true;\n                    conn->ev_enqueue_poll.add(0);\n                    return;", "conn->msg_sleep = true;\n                    return;"),
("m03b", "P03", N, "if (!incoming_msgs.enqueue(std::make_pair(msg, conn), false))", "if (!incoming_msgs.enqueue(std::make_pair(msg, conn), true))"),
("m03c", "P03", C, "if (conn->recv_buffer.len() >= conn->max_recv_buff_size)\n            {\n                /* still full", "if (conn->recv_buffer.len() > conn->max_recv_buff_size)\n            {\n                /* still full"),
("m03d", "P03", N, "if (conn->msg_sleep) return;", ""),
("m03e", "P03", N, "    if (conn->ready_recv && recv_buffer.len()", "    if (conn->ready_recv && recv_buffer.len() + 1"),
("m03f", "P03", C, "conn->ready_recv = true;\n                return;", "return;", 1),
# ---- P04
("m04a", "P04", CH, "return send_buffer.push(std::move(data), !cpool->max_send_buff_size);", "send_buffer.push(std::move(data), !cpool->max_send_buff_size); return true;"),
("m04b", "P04", C, "conn->send_buffer.set_capacity(max_send_buff_size);", "", 1),
("m04c", "P04", Q, "if (!this->blks.pop(_nblk)) _nblk = new typename MPMCQueue<T>::Block();", "_nblk = new typename MPMCQueue<T>::Block();"),
("m04d", "P04", Q, "this->head.store(hnext, std::memory_order_relaxed);\n                this->blks.push(h);", "this->head.store(hnext, std::memory_order_relaxed);\n                delete h;"),
# ---- P05
("m05a", "P05", C, "    pool.erase(it);\n    update_conn(conn, false);", "    pool.erase(it);\n    if (conn->worker) update_conn(conn, false);"),
("m05b", "P05", C, "        if (!conn->set_terminated()) return;\n        on_worker_teardown(conn);", "        if (conn->is_terminated()) return;\n        conn->set_terminated();\n        on_worker_teardown(conn);"),
("m05c", "P05", C, "    update_conn(conn, false);\n    release_conn(conn);", "    release_conn(conn);\n    update_conn(conn, false);"),
("m05d", "P05", C, "    pool.erase(it);\n    update_conn(conn, false);\n    release_conn(conn);", "    update_conn(conn, false);\n    release_conn(conn);\n    pool.erase(it);"),
("m05e", "P05", C, "    ::close(conn->fd);", "    if (conn->worker) ::close(conn->fd);"),
("m05f", "P05", C, "conn->worker->get_tcall()->async_call([this, conn](ThreadCall::Handle &) {\n        if (!conn->set_terminated()) return;", "if (!conn->set_terminated()) return;\n    conn->worker->get_tcall()->async_call([this, conn](ThreadCall::Handle &) {"),
("m05g", "P05", C, "                cpool->on_dispatcher_setup(conn);\n                cpool->update_conn(conn, true);", "                if (conn->is_terminated()) return;\n                cpool->on_dispatcher_setup(conn);\n                cpool->update_conn(conn, true);"),
("m05h", "P05", C, "        if (ret == 0)\n        {\n            /* the remote closes the connection */\n            conn->cpool->worker_terminate(conn);\n            return;\n        }", "        if (ret == 0)\n        {\n            /* the remote closes the connection */\n            if (conn->recv_buffer.size() == 0) conn->cpool->worker_terminate(conn);\n            return;\n        }"),
("m05i", "P05", C, "if (events & FdEvent::ERROR)\n    {\n        conn->cpool->worker_terminate(conn);\n        return;\n    }\n    ssize_t ret = conn->recv_chunk_size;\n    for (;;)", "ssize_t ret = conn->recv_chunk_size;\n    for (;;)", 0),
# ---- P06
("m06a", "P06", C, "sizeof(struct sockaddr_in)) < 0 && errno != EINPROGRESS)", "sizeof(struct sockaddr_in)) < 0 && errno != EINPROGRESS && errno != ENETUNREACH)"),
("m06b", "P06", C, "    } catch (...) {\n        disp_terminate(conn);\n        recoverable_error", "    } catch (...) {\n        recoverable_error"),
("m06c", "P06", C, "conn->ev_connect.add(FdEvent::WRITE, conn_server_timeout);", "conn->ev_connect.add(FdEvent::WRITE, 2 * conn_server_timeout);"),
("m06d", "P06", CH, "                this->recoverable_error(std::current_exception(), id);\n            }\n        });\n        return id;", "                this->recoverable_error(std::current_exception(), -1);\n            }\n        });\n        return id;"),
("m06e", "P06", C, "if (send(fd, \"\", 0, 0) == 0)", "if (!(events & TimedFdEvent::TIMEOUT) && send(fd, \"\", 0, 0) == 0)"),
("m06f", "P06", C, "            conn->ev_connect.del();\n", ""),
("m06g", "P06", C, "if ((client_fd = accept(fd, &client_addr, &addr_size)) < 0)\n        {\n            ev_listen.del();", "if ((client_fd = accept(fd, &client_addr, &addr_size)) < 0)\n        {"),
# ---- P07
("m07a", "P07", C, "conn->recv_data_func = _recv_data_dummy;", "conn->recv_data_func = _recv_data_tls;"),
("m07b", "P07", CH, "                        else worker_terminate(conn);", "                        else conn->ev_socket.del();"),
("m07c", "P07", CR, "SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT", "SSL_VERIFY_PEER"),
("m07d", "P07", CH, "            if (!tls_ctx->check_privkey())", "            if (!config._tls_key && !tls_ctx->check_privkey())"),
("m07e", "P07", C, "conn->ready_send = true;\n    _recv_data_tls_handshake(conn, fd, events);", "_recv_data_tls_handshake(conn, fd, events);"),
("m07f", "P07", CH, "if (ret)\n                        {\n                            conn->recv_data_func", "if (ret || conn->mode == Conn::ACTIVE)\n                        {\n                            conn->recv_data_func"),
# ---- P08
("m08a", "P08", CH, "        user_tcall->async_call([this, err, id](ThreadCall::Handle &) {\n            if (error_cb) error_cb(err, false, id);\n        });", "        if (id >= 0) { if (error_cb) error_cb(err, false, id); return; }\n        user_tcall->async_call([this, err, id](ThreadCall::Handle &) {\n            if (error_cb) error_cb(err, false, id);\n        });"),
("m08b", "P08", N, "                        this->user_tcall->async_call([this, addr=msg.claimed_addr, conn](ThreadCall::Handle &) {\n                            if (unknown_peer_cb) unknown_peer_cb(addr, conn->get_peer_cert());\n                        });", "                        if (unknown_peer_cb) unknown_peer_cb(msg.claimed_addr, conn->get_peer_cert());"),
("m08c", "P08", N, "    this->user_tcall->async_call([this, conn](ThreadCall::Handle &) {\n        if (peer_cb) peer_cb(conn, false);\n    });", "    if (peer_cb) peer_cb(conn, false);"),
# ---- P09
("m09a", "P09", N, "if (msg.nonce < p->get_nonce() || p->addr.is_null())", "if (msg.nonce <= p->get_nonce() || p->addr.is_null())"),
("m09b", "P09", N, "if (p->get_nonce() < msg.nonce)", "if (p->get_nonce() <= msg.nonce)"),
("m09c", "P09", N, "                    if (p->state != Peer::State::DISCONNECTED) return;\n", "", 0),
("m09d", "P09", N, "        p->nonce = 0;\n        p->ev_retry_timer.add(", "        p->ev_retry_timer.add("),
("m09e", "P09", N, "                        this->disp_terminate(old_conn);\n                    }\n                    old_conn = conn;\n                    if (msg.nonce <", "                    }\n                    old_conn = conn;\n                    if (msg.nonce <"),
("m09f", "P09", N, "                        p->nonce = passive_nonce;\n                        this->disp_terminate(p->conn);", "                        this->disp_terminate(p->conn);"),
("m09g", "P09", N, "                        p->inbound_preempt_ping = new MsgPing(std::move(msg));\n                        p->inbound_conn = conn;\n                        p->nonce = passive_nonce;\n                        this->disp_terminate(p->conn);\n                        return;", "                        this->disp_terminate(conn);\n                        return;"),
("m09h", "P09", N, "    p->ev_retry_timer.del();\n    p->cur_ntry = p->ntry;", "    p->cur_ntry = p->ntry;"),
("m09i", "P09", N, "    else\n        p->nonce = passive_nonce;\n}", "}"),
# ---- P10
("m10a", "P10", N, "    old_conn = new_conn;\n    new_conn->peer = p;", "    new_conn->peer = p;\n    old_conn = new_conn;\n    p->chosen_conn = nullptr;"),
("m10b", "P10", N, "        old_conn->peer = nullptr;\n    }\n    old_conn = new_conn;", "    }\n    old_conn = new_conn;"),
("m10c", "P10", N, "            if (peer_cb) peer_cb(conn, false);\n            ping_handler", "            ping_handler"),
("m10d", "P10", N, "            p->conn->peer = nullptr;\n            this->disp_terminate(p->conn);", "            this->disp_terminate(p->conn);"),
# ---- P11
("m11a", "P11", N, "    p->cur_ntry = p->ntry;\n", ""),
("m11b", "P11", N, "        if (p->state == Peer::State::CONNECTED && p->cur_ntry > 0)\n            p->cur_ntry--;", ""),
("m11c", "P11", N, "if (p->cur_ntry > 0) p->cur_ntry--;", "if (p->cur_ntry > 1) p->cur_ntry--;"),
("m11d", "P11", N, "                    if (p->cur_ntry)\n                        p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));\n                } catch", "                } catch"),
("m11e", "P11", U, "return base_timeout + rand() / (double)RAND_MAX * alpha * base_timeout;", "return base_timeout + (rand() / (double)RAND_MAX - 0.5) * alpha * base_timeout;"),
("m11f", "P11", N, "            p->retry_delay = retry_delay;\n", "            if (!p->ev_retry_timer) p->retry_delay = retry_delay;\n"),
("m11g", "P11", N, "            0 : gen_rand_timeout(p->retry_delay));", "            0 : gen_rand_timeout(p->retry_delay / 4));"),
# ---- P12
("m12a", "P12", N, "            conn->ev_timeout.del();\n            conn->ev_timeout.add(t);", "            conn->ev_timeout.add(t / 2);"),
("m12b", "P12", N, "    pong_msg_ok = false;\n", ""),
("m12c", "P12", N, "    tcall_reset_timeout(chosen_conn->worker, chosen_conn, pn->conn_timeout);\n", ""),
("m12d", "P12", N, "    ping_timer_ok = true;\n    if (pong_msg_ok)\n    {", "    ping_timer_ok = true;\n    {"),
("m12e", "P12", N, "                if (p->ping_timer_ok)\n                {\n                    p->reset_ping_timer();\n                    p->send_ping();\n                }", ""),
("m12f", "P12", N, "                send_msg(MsgPong(), conn);", "                if (conn->peer) send_msg(MsgPong(), conn);"),
("m12g", "P12", N, "                p->pong_msg_ok = true;\n", "                p->pong_msg_ok = true; tcall_reset_timeout(conn->worker, conn, conn_timeout);\n"),
("m12h", "P12", N, "    tcall_reset_timeout(conn->worker, conn, conn_timeout);\n    if (conn->get_mode()", "    if (conn->get_mode()"),
# ---- P13
("m13a", "P13", N, "                        this->disp_terminate(conn);\n                        return;\n                    }\n                    if (!msg.nonce) return;", "                        return;\n                    }\n                    if (!msg.nonce) return;"),
("m13b", "P13", N, "            if (p->inbound_conn)\n                this->disp_terminate(p->inbound_conn);\n            if (p->outbound_conn)\n                this->disp_terminate(p->outbound_conn);", ""),
("m13c", "P13", N, "            this->disp_terminate(p->conn);\n            if (p->inbound_conn)", "            if (p->inbound_conn)"),
("m13d", "P13", N, "            if (inbound_conn) inbound_conn->peer = nullptr;\n            if (outbound_conn) outbound_conn->peer = nullptr;", "            if (inbound_conn) inbound_conn->peer = nullptr;"),
("m13e", "P13", N, "        return _get_peer_id(conn->get_peer_cert(), addr);", "        return _get_peer_id(conn->get_peer_cert(), conn->get_mode() == Conn::ConnMode::PASSIVE ? addr : conn->get_addr());"),
("m13f", "P13", N, "if (!this->enable_tls || id_mode == ADDR_BASED)", "if (id_mode == ADDR_BASED || !cert)"),
# ---- P14
("m14a", "P14", N, "            if (old_conn->partial_send)\n            {", "            if (false)\n            {"),
("m14b", "P14", N, "            new_conn->write(std::move(buff_seg));", "            if (buff_seg.size() != 4096) new_conn->write(std::move(buff_seg));"),
("m14c", "P14", N, "                old_conn->partial_send = false;\n                continue;", "                continue;"),
("m14d", "P14", N, "    pinfo_slock_t _g(known_peers_lock);\n    return MsgNet::_send_msg(msg, _get_peer_conn(pid));", "    conn_t conn;\n    {\n        pinfo_slock_t _g(known_peers_lock);\n        conn = _get_peer_conn(pid);\n    }\n    return MsgNet::_send_msg(msg, conn);"),
("m14e", "P14", C, "        conn->partial_send = false;\n    }\n    /* the send_buffer is empty", "    }\n    /* the send_buffer is empty"),
("m14f", "P14", C, "        conn->partial_send = false;\n    }\n    conn->ev_socket.del();", "    }\n    conn->ev_socket.del();"),
# ---- P15
("m15a", "P15", Q, "            /* the block could have been recycled before it was referenced */\n            if (this->head.load(std::memory_order_acquire) != h)\n            {\n                blks.release_ref(h);\n                continue;\n            }\n", ""),
("m15b", "P15", Q, "            if (!t) continue;\n", ""),
("m15c", "P15", Q, "                if (t->next.load(std::memory_order_relaxed) == nullptr)\n                {", "                {"),
("m15d", "P15", Q, "                h->avail[hh].store(false, std::memory_order_relaxed);\n                blks.release_ref(h);", "                blks.release_ref(h);"),
("m15e", "P15", Q, "            h->avail[hh].store(false, std::memory_order_relaxed);\n            break;", "            break;"),
("m15f", "P15", Q, "                new (&(t->elem[tt])) T(std::forward<U>(e));\n                t->avail[tt].store(true, std::memory_order_release);", "                t->avail[tt].store(true, std::memory_order_release);\n                new (&(t->elem[tt])) T(std::forward<U>(e));"),
("m15g", "P15", Q, "                        tail.store(nblk, std::memory_order_release);\n                        nblk->freed.store(false, std::memory_order_release);", "                        nblk->freed.store(false, std::memory_order_release);\n                        tail.store(nblk, std::memory_order_release);"),
("m15h", "P15", Q, "            auto hh = h->head.load(std::memory_order_relaxed);\n            auto tt = h->tail.load(std::memory_order_relaxed);\n            if (hh >= tt)\n            {\n                if (tt < MPMCQ_SIZE) { blks", "            auto tt = h->tail.load(std::memory_order_relaxed);\n            auto hh = h->head.load(std::memory_order_relaxed);\n            if (hh >= tt)\n            {\n                if (tt < MPMCQ_SIZE) { blks"),
("m15i", "P15", Q, "                if (hnext == nullptr) { blks.release_ref(h); return false; }", "                if (hnext == nullptr) return false;"),
("m15j", "P15", Q, "                        blks.push(nblk);\n", "                        ;\n"),
("m15k", "P15", Q, "            if (t->freed.load(std::memory_order_relaxed))\n            {\n                blks.release_ref(t);\n                continue;\n            }\n", ""),
("m15l", "P15", Q, "            h->head.store(hh + 1, std::memory_order_relaxed);\n            while (!h->avail[hh].load(std::memory_order_acquire))\n                std::this_thread::yield();", "            if (!h->avail[hh].load(std::memory_order_acquire)) return false;\n            h->head.store(hh + 1, std::memory_order_relaxed);"),
# ---- P16
("m16a", "P16", E, "                    wait_sig.exchange(true, std::memory_order_acq_rel);\n                    if (func(*this))\n                        nfd.notify();\n                });", "                    bool more = func(*this);\n                    wait_sig.exchange(true, std::memory_order_acq_rel);\n                    if (more)\n                        nfd.notify();\n                });"),
("m16b", "P16", E, "                    nfd.reset();\n", "                    wait_sig.exchange(true, std::memory_order_acq_rel);\n                    nfd.reset();\n"),
("m16c", "P16", E, "        if (!MPSCQueue<T>::enqueue(std::forward<U>(e), unbounded))\n            return false;\n        // memory barrier here, so any load/store in enqueue must be finialized\n        if (wait_sig.exchange(false, std::memory_order_acq_rel))\n", "        bool sig = wait_sig.exchange(false, std::memory_order_acq_rel);\n        if (!MPSCQueue<T>::enqueue(std::forward<U>(e), unbounded))\n            return false;\n        if (sig)\n"),
("m16d", "P16", E, "            if (!nfd.reset()) return;\n            // only one consumer should be here a a time\n            wait_sig.exchange(true, std::memory_order_acq_rel);\n            if (func(*this))\n                nfd.notify();", "            if (!nfd.reset()) return;\n            wait_sig.exchange(true, std::memory_order_acq_rel);\n            func(*this);"),
("m16e", "P16", E, "        if (wait_sig.exchange(false, std::memory_order_acq_rel))\n        {\n            //SALTICIDAE_LOG_DEBUG(\"mpsc notify\");", "        if (wait_sig.load(std::memory_order_acquire))\n        {\n            wait_sig.store(false);"),
("m16f", "P16", E, "            if (!nfd.reset()) return;", "            nfd.reset();"),
# ---- P17
("m17a", "P17", E, "        mutex_lg_t _(mlock);\n        ready = true;\n        data = std::move(_data);", "        mutex_lg_t _(mlock);\n        ready = true;\n        cv.notify_all();\n        data = std::move(_data);"),
("m17b", "P17", E, "    ThreadNotifier(): ul(mlock), ready(false) {}", "    ThreadNotifier(): ready(false) {}"),
("m17c", "P17", E, "                if (++cnt == burst_size) return true;\n            }\n            return false;\n        });\n    }\n\n    ~ThreadCall()", "                if (++cnt == burst_size) break;\n            }\n            return false;\n        });\n    }\n\n    ~ThreadCall()"),
("m17d", "P17", E, "                    h->set_result(0).error = std::current_exception();\n                    h->return_sync();", "                    h->return_sync();"),
("m17e", "P17", E, "        Handle *h;\n        while (q.try_dequeue(h)) delete h;\n", ""),
("m17f", "P17", E, "                    if (!stopped) h->exec();\n                    else throw SalticidaeError(SALTI_ERROR_NOT_AVAIL);", "                    h->exec();"),
("m17g", "P17", E, "            std::swap(error, other.error);\n", ""),
# ---- P18
("m18a", "P18", R, "    bool release_ref() {\n        if (--ref_cnt) return false;\n        release_weak();\n        return true;", "    bool release_ref() {\n        if (--ref_cnt) return false;\n        if (weak_cnt > 1) release_weak(); else delete this;\n        return true;"),
("m18b", "P18", R, "        size_t cnt = ref_cnt.load();\n        while (cnt)\n            if (ref_cnt.compare_exchange_weak(cnt, cnt + 1)) return true;\n        return false;", "        if (!ref_cnt.load()) return false;\n        ref_cnt++;\n        return true;"),
("m18c", "P18", R, "        if (--ref_cnt) return false;\n        release_weak();", "        ref_cnt--;\n        if (ref_cnt) return false;\n        release_weak();"),
("m18d", "P18", R, "        if (--weak_cnt) return;\n        if (ref_cnt) return;\n        delete this;", "        if (--weak_cnt) return;\n        delete this;"),
("m18e", "P18", R, "            obj(other.obj), ctl(other.ctl) {\n        if (ctl) ctl->add_weak();", "            obj(other.obj), ctl(other.ctl) {\n        if (ctl && obj) ctl->add_ref(), ctl->add_weak(), ctl->release_ref();"),
# ---- P19
("m19a", "P19", N, "    if (it != addr2conn.end() && it->second == conn)", "    if (it != addr2conn.end())"),
("m19b", "P19", N, "    cn->addr2conn.erase(addr);\n    cn->addr2conn.insert", "    cn->addr2conn.insert"),
# ---- P20
("m20a", "P20", CH, "return async_id.fetch_add(1, std::memory_order_relaxed);", "auto x = async_id.load(); async_id.store(x + 1); return x;"),
("m20b", "P20", N, "                succ &= MsgNet::_send_msg(msg, _get_peer_conn(pid));", "                if (!(succ &= MsgNet::_send_msg(msg, _get_peer_conn(pid)))) break;"),
("m20c", "P20", N, "            if (known_peers.count(pid))\n                throw PeerNetworkError(SALTI_ERROR_PEER_ALREADY_EXISTS);", "            if (known_peers.count(pid)) return;"),
("m20d", "P20", N, "            if (!_send_msg(msg, pid))\n                throw", "            if (_send_msg(msg, pid))\n                return; else throw"),
("m20e", "P20", N, "            if (p->addr.is_null())\n                throw PeerNetworkError(SALTI_ERROR_PEER_NOT_READY);", "            if (p->addr.is_null())\n                throw PeerNetworkError(SALTI_ERROR_PEER_NOT_MATCH);"),
# ---- P21
("m21a", "P21", CH, "            on_worker_teardown(conn);\n            //conn->stop();\n            conn->set_terminated();\n            release_conn(conn);", "            //conn->stop();\n            conn->set_terminated();\n            release_conn(conn);"),
("m21b", "P21", N, "while (q.try_dequeue(item) && this->system_state == 1)", "while (q.try_dequeue(item))"),
("m21c", "P21", CH, "            close(listen_fd);\n            listen_fd = -1;", "            listen_fd = -1;"),
("m21d", "P21", N, "        conn->ev_enqueue_poll.clear();\n        ConnPool::on_worker_teardown", "        ConnPool::on_worker_teardown"),
("m21e", "P21", N, "    conn->ev_timeout.clear();\n    MsgNet::on_worker_teardown", "    MsgNet::on_worker_teardown"),
("m21f", "P21", CH, "        conn->send_buffer.get_queue().unreg_handler();", ""),
("m21g", "P21", C, "    conn->ev_connect.clear();\n    conn->ev_socket.clear();", "    conn->ev_socket.clear();"),
("m21h", "P21", C, "    conn->ev_connect.clear();\n", "    conn->ev_connect.del();\n"),
# ---- P22
("m22a", "P22", S, "if (offset + sizeof(T) > buffer.size())", "if (offset > buffer.size())"),
("m22b", "P22", S, "return bytearray_t(buffer.begin() + offset, buffer.end());", "return bytearray_t(buffer.begin(), buffer.end());"),
("m22c", "P22", S, "        buffer.resize(len >> 1);\n        offset = 0;", "        buffer.resize(len >> 1);"),
("m22d", "P22", S, "if (!isxdigit((uint8_t)p[0]) || !isxdigit((uint8_t)p[1]) ||", "if (!isxdigit((uint8_t)p[0]) ||"),
("m22e", "P22", S, "for (size_t i = _len - 1; i > 0; i--)\n            if (data[i] != other.data[i])\n                return data[i] < other.data[i];", "for (size_t i = _len - 1; i > 1; i--)\n            if (data[i] != other.data[i])\n                return data[i] < other.data[i];"),
("m22f", "P22", B, "offset = data.begin() + (other.offset - other.data.begin());", "offset = data.begin();"),
("m22g", "P22", B, "        front.data.erase(front.data.begin(), front.offset);\n", ""),
("m22h", "P22", B, "            if (i->offset == i->data.end())\n                i++;", "            if (len && i->offset == i->data.end())\n                i++;"),
("m22i", "P22", MS, "if (s.size() / (256 / 8) < size)", "if (s.size() / 8 < size)"),
("m22j", "P22", MS, "            no_payload(other.no_payload) {}\n\n    MsgBase(MsgBase &&other)", "            no_payload(true) {}\n\n    MsgBase(MsgBase &&other)"),
("m22k", "P22", MS, "        no_payload = true;\n#endif\n        return", "#endif\n        return"),
# ---- P23
("m23a", "P23", NA, "if (port > 0xffff)", "if (port > 0x1ffff)"),
("m23b", "P23", NA, "        if (idx != port_str.length())\n            throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);\n", ""),
("m23c", "P23", U, "nwrote >= guessed_size", "nwrote > guessed_size"),
("m23d", "P23", U, "res.push_back(s.substr(lastpos, s.length() - lastpos));", "if (lastpos < s.length()) res.push_back(s.substr(lastpos, s.length() - lastpos));"),
("m23e", "P23", U, "                fclose(conf_f);\n                throw;", "                throw;"),
("m23f", "P23", U, "            size_t pos = line.find(\"=\");", "            size_t pos = line.rfind(\"=\");"),
("m23g", "P23", U, "if (strlen(buff) == BUFF_SIZE - 1)", "if (strlen(buff) >= BUFF_SIZE)"),
# ---- P24
("m24a", "P24", E, "        event->TimerEvent::del();\n        if (uv_timer_start(event->ev_timer, TimedFdEvent::timer_then,\n                            event->timeout, 0) < 0)\n            throw SalticidaeError(SALTI_ERROR_LIBUV_START);\n", ""),
("m24b", "P24", E, "        event->FdEvent::del();\n        event->callback(event->fd, TIMEOUT);", "        event->callback(event->fd, TIMEOUT);"),
("m24c", "P24", E, "        std::swap(timeout, other.timeout);\n", ""),
("m24d", "P24", E, "            callback(std::move(other.callback)),\n            timeout(other.timeout) {", "            callback(std::move(other.callback)),\n            timeout(0) {"),
("m24e", "P24", E, "        if (ev_timer != nullptr)\n            ev_timer->data = this;\n        if (other.ev_timer != nullptr)\n            other.ev_timer->data = &other;", "        if (ev_timer != nullptr)\n            ev_timer->data = this;"),
("m24f", "P24", E, "            uv_poll_stop(ev_fd);\n            uv_close", "            uv_close"),
("m24g", "P24", E, "        TimerEvent::clear();\n        FdEvent::clear();\n        callback = nullptr;", "        FdEvent::clear();\n        callback = nullptr;"),
("m24h", "P24", E, "        if (status != 0)\n            events |= ERROR;\n        auto event = static_cast<FdEvent *>", "        auto event = static_cast<FdEvent *>"),
("m24i", "P24", E, "uint64_t(t_sec * 1000), 0) < 0)\n            throw", "uint64_t(t_sec) * 1000, 0) < 0)\n            throw"),
]
