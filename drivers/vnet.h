// A network inside the process, under the deterministic scheduler. The code
// under test gets descriptors from `fd0` upwards; everything below is the real
// system. The driver plays all clients. Include after vsched.h.
#pragma once
#include <algorithm>
#include <deque>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>

namespace vn {
    constexpr int fd0 = 100000;

    struct Conn {
        int no = 0, fd = -1;
        std::string in, out;      // to the server, from the server
        bool eof = false;         // the client has finished sending
        bool dead = false;        // the client is gone
        bool late = false;        // receives time out
        bool timed = false;       // a receive time-out was set
        long budget = -1;         // bytes the server can still send, then failure
        bool passing = false;     // the failure is over after one send
        bool failed = false;      // a send has failed
        bool accepted = false;
        int closes = 0, stale = 0;
        int bad_opt = 0;          // the n-th setsockopt fails
        bool no_thread = false;   // starting a thread after accepting it fails
        bool no_accept = false;   // accepting it fails
        int err = EAGAIN;         // how a time-out or failure is reported
    };

    struct Listener {
        int fd = -1;
        bool bound = false, listening = false, shut = false;
        int closes = 0, port = 0;
        std::deque<Conn *> queue;
    };

    inline std::vector<Conn *> conns;
    inline std::vector<Listener *> listeners;
    inline int next_fd = fd0;
    inline bool portions = false;      // plain receives return portions
    inline bool refuse_bind = false;
    inline int stray = 0;              // calls on descriptors that do not exist

    inline Conn *conn(int fd) {
        for (auto c: conns) if (c->fd == fd) return c;
        return nullptr;
    }

    inline Listener *listener(int fd) {
        for (auto l: listeners) if (l->fd == fd) return l;
        return nullptr;
    }

    inline bool mine(int fd) { return fd >= fd0; }

    inline Listener *current() {
        for (auto it = listeners.rbegin(); it != listeners.rend(); ++it)
            if ((*it)->listening && !(*it)->shut && !(*it)->closes) return *it;
        return nullptr;
    }

    // Room for a thread that cannot go on any more.
    [[noreturn]] inline void park() {
        static int nothing;
        while (true) vs::block(&nothing, "network");
    }

    inline ssize_t send(int fd, const void *p, size_t n) {
        vs::point();
        auto c = conn(fd);
        if (!c || c->closes) {
            if (c) c->stale++;
            else stray++;
            errno = EBADF;
            return -1;
        }
        if (c->dead) {
            c->failed = true;
            errno = EPIPE;
            return -1;
        }
        if (c->budget == 0 && n > 0) {
            c->failed = true;
            if (c->passing) c->budget = -1;
            errno = c->err;
            return -1;
        }
        if (c->budget > 0 && (size_t) c->budget < n) {
            c->failed = true;
            n = c->budget;
            c->budget = c->passing ? -1 : 0;
        } else if (c->budget > 0) c->budget -= n;
        c->out.append((const char *) p, n);
        return (ssize_t) n;
    }

    inline ssize_t recv(int fd, void *p, size_t n, int flags) {
        vs::point();
        auto c = conn(fd);
        if (!c || c->closes) {
            if (c) c->stale++;
            else stray++;
            errno = EBADF;
            return -1;
        }
        size_t want = (flags & MSG_WAITALL) ? std::max<size_t>(n, 1) : 1;
        while (true) {
            if (c->dead) {
                errno = ECONNRESET;
                return -1;
            }
            if (c->in.size() >= want) break;
            if (c->eof) break;
            if (c->late && c->timed) {
                if (c->in.empty()) {
                    errno = EAGAIN;
                    return -1;
                }
                break;
            }
            if (flags & MSG_DONTWAIT) {
                if (!c->in.empty()) break;
                errno = EAGAIN;
                return -1;
            }
            vs::block(c, "network");
        }
        size_t k = std::min(n, c->in.size());
        if (!(flags & MSG_WAITALL) && portions && k > 1) k = 1 + vs::rng->below(k);
        memcpy(p, c->in.data(), k);
        if (!(flags & MSG_PEEK)) c->in.erase(0, k);
        return (ssize_t) k;
    }

    inline int accept(int fd, sockaddr *a, socklen_t *len) {
        vs::point();
        auto l = listener(fd);
        if (!l) {
            stray++;
            errno = EBADF;
            return -1;
        }
        while (l->queue.empty() && !l->shut && !l->closes) vs::block(l, "network");
        if (l->shut || l->closes) park();   // in the program the process ends here
        auto c = l->queue.front();
        l->queue.pop_front();
        if (c->no_accept) {
            errno = ECONNABORTED;
            return -1;
        }
        c->fd = next_fd++;
        c->accepted = true;
        if (c->no_thread) (*vs::fail_create)[vs::self] = true;
        if (a && len) {
            sockaddr_in s{};
            s.sin_family = AF_INET;
            s.sin_port = htons(40000 + c->no);
            s.sin_addr.s_addr = htonl(0x7f000001);
            memcpy(a, &s, std::min<size_t>(*len, sizeof(s)));
            *len = sizeof(s);
        }
        return c->fd;
    }

    inline int close(int fd) {
        vs::point();
        if (auto c = conn(fd)) {
            c->closes++;
            if (c->closes > 1) {
                errno = EBADF;
                return -1;
            }
            return 0;
        }
        if (auto l = listener(fd)) {
            l->closes++;
            vs::wake(l);
            return 0;
        }
        stray++;
        errno = EBADF;
        return -1;
    }

    inline int setopt(int fd, int name) {
        vs::point();
        if (listener(fd)) return 0;
        auto c = conn(fd);
        if (!c || c->closes) {
            if (c) c->stale++;
            else stray++;
            errno = EBADF;
            return -1;
        }
        if (c->bad_opt && --c->bad_opt == 0) {
            errno = ENOBUFS;
            return -1;
        }
        if (name == SO_RCVTIMEO) c->timed = true;
        return 0;
    }

    // ------------------------------------------------------------ the clients
    inline Conn *connect() {
        auto l = current();
        if (!l) return nullptr;
        auto c = new Conn();
        c->no = conns.size() + 1;
        conns.push_back(c);
        l->queue.push_back(c);
        vs::wake(l);
        return c;
    }

    inline void give(Conn *c, const std::string &s) {
        c->in += s;
        vs::wake(c);
    }

    inline void touch(Conn *c) { vs::wake(c); }
}

extern "C" {
int socket(int d, int t, int p) {
    VS_REAL("socket", int (*)(int, int, int));
    if (!vs::managed()) return r(d, t, p);
    auto l = new vn::Listener();
    l->fd = vn::next_fd++;
    vn::listeners.push_back(l);
    return l->fd;
}
int bind(int fd, const struct sockaddr *a, socklen_t n) {
    VS_REAL("bind", int (*)(int, const struct sockaddr *, socklen_t));
    if (!vn::mine(fd)) return r(fd, a, n);
    auto l = vn::listener(fd);
    if (!l || vn::refuse_bind) {
        errno = EADDRINUSE;
        return -1;
    }
    l->bound = true;
    l->port = ntohs(((const sockaddr_in *) a)->sin_port);
    return 0;
}
int listen(int fd, int n) {
    VS_REAL("listen", int (*)(int, int));
    if (!vn::mine(fd)) return r(fd, n);
    auto l = vn::listener(fd);
    if (!l || !l->bound) {
        errno = EINVAL;
        return -1;
    }
    l->listening = true;
    return 0;
}
int accept(int fd, struct sockaddr *a, socklen_t *n) {
    VS_REAL("accept", int (*)(int, struct sockaddr *, socklen_t *));
    return vn::mine(fd) ? vn::accept(fd, a, n) : r(fd, a, n);
}
int accept4(int fd, struct sockaddr *a, socklen_t *n, int f) {
    VS_REAL("accept4", int (*)(int, struct sockaddr *, socklen_t *, int));
    return vn::mine(fd) ? vn::accept(fd, a, n) : r(fd, a, n, f);
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    VS_REAL("setsockopt", int (*)(int, int, int, const void *, socklen_t));
    return vn::mine(fd) ? vn::setopt(fd, o) : r(fd, l, o, v, n);
}
int getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
    VS_REAL("getsockopt", int (*)(int, int, int, void *, socklen_t *));
    if (!vn::mine(fd)) return r(fd, l, o, v, n);
    memset(v, 0, *n);
    return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *n) {
    VS_REAL("getpeername", int (*)(int, struct sockaddr *, socklen_t *));
    if (!vn::mine(fd)) return r(fd, a, n);
    memset(a, 0, *n);
    return 0;
}
ssize_t send(int fd, const void *p, size_t n, int f) {
    VS_REAL("send", ssize_t (*)(int, const void *, size_t, int));
    return vn::mine(fd) ? vn::send(fd, p, n) : r(fd, p, n, f);
}
ssize_t sendto(int fd, const void *p, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    VS_REAL("sendto", ssize_t (*)(int, const void *, size_t, int, const struct sockaddr *, socklen_t));
    return vn::mine(fd) ? vn::send(fd, p, n) : r(fd, p, n, f, a, l);
}
ssize_t write(int fd, const void *p, size_t n) {
    VS_REAL("write", ssize_t (*)(int, const void *, size_t));
    return vn::mine(fd) ? vn::send(fd, p, n) : r(fd, p, n);
}
static ssize_t vn_gather(int fd, const struct iovec *v, int n) {
    std::string s;
    for (int k = 0; k < n; k++) s.append((const char *) v[k].iov_base, v[k].iov_len);
    return vn::send(fd, s.data(), s.size());
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    VS_REAL("writev", ssize_t (*)(int, const struct iovec *, int));
    return vn::mine(fd) ? vn_gather(fd, v, n) : r(fd, v, n);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int f) {
    VS_REAL("sendmsg", ssize_t (*)(int, const struct msghdr *, int));
    return vn::mine(fd) ? vn_gather(fd, m->msg_iov, m->msg_iovlen) : r(fd, m, f);
}
ssize_t recv(int fd, void *p, size_t n, int f) {
    VS_REAL("recv", ssize_t (*)(int, void *, size_t, int));
    return vn::mine(fd) ? vn::recv(fd, p, n, f) : r(fd, p, n, f);
}
ssize_t recvfrom(int fd, void *p, size_t n, int f, struct sockaddr *a, socklen_t *l) {
    VS_REAL("recvfrom", ssize_t (*)(int, void *, size_t, int, struct sockaddr *, socklen_t *));
    return vn::mine(fd) ? vn::recv(fd, p, n, f) : r(fd, p, n, f, a, l);
}
ssize_t read(int fd, void *p, size_t n) {
    VS_REAL("read", ssize_t (*)(int, void *, size_t));
    if (!vn::mine(fd)) return r(fd, p, n);
    return n == 0 ? 0 : vn::recv(fd, p, n, 0);
}
int poll(struct pollfd *p, nfds_t n, int t) {
    VS_REAL("poll", int (*)(struct pollfd *, nfds_t, int));
    if (n != 1 || !vn::mine(p->fd)) return r(p, n, t);
    auto c = vn::conn(p->fd);
    if (c && (p->events & POLLIN))
        while (c->in.empty() && !c->eof && !c->dead && !(c->late && t > 0)) vs::block(c, "network");
    p->revents = c && c->in.empty() && c->late && !c->eof && !c->dead ? 0 : p->events;
    return p->revents ? 1 : 0;
}
int shutdown(int fd, int how) {
    VS_REAL("shutdown", int (*)(int, int));
    if (!vn::mine(fd)) return r(fd, how);
    if (auto l = vn::listener(fd)) {
        l->shut = true;
        vs::wake(l);
    }
    return 0;
}
int close(int fd) {
    VS_REAL("close", int (*)(int));
    return vn::mine(fd) ? vn::close(fd) : r(fd);
}
}
