// Simulated TCP/IP: blocking and non-blocking stream sockets between hosts.
#include "sim.h"
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

static int rdRate, wrRate, eintrRate, segRate, selRate, holdRate, holdMax, refRate, rstRate, acceptErr;
static size_t sockCap;
static int dualStack;
static int nextEphemeral;
static int sockSeq;

struct Sock;
struct Pipe : Item {
    std::string inflight, rbuf;
    bool fin = false, finDelivered = false, rst = false;
    bool dead = false; // reader gone
    bool lost = false; // reset with data on its way
    void reset() { rst = true; if (!inflight.empty()) lost = true; }
    uint64_t hold = 0;
    Sock* reader = nullptr;
    Sock* writer = nullptr;
    int id = 0;
    bool registered = false, ext = false; // other end is no process of the computation
    bool enabled() override { return (!inflight.empty() || (fin && !finDelivered)); }
    uint64_t when() override { return hold; }
    int key() override { return id; }
    void fire() override;
    size_t room() { size_t u = inflight.size() + rbuf.size(), c = ext ? 262144 : sockCap; return u >= c ? 0 : c - u; }
};

struct Sock {
    enum St { NEW, BOUND, LISTEN, CONN, CONNECTING, CLOSED } st = NEW;
    Node* node = nullptr;
    int id = 0;
    int fd = -1;
    int host = 0, port = 0;
    int family = AF_INET;
    bool reuse = false, nonblock = false, isConnectError = false;
    int backlogMax = 5;
    std::deque<Sock*> backlog;
    Pipe *in = nullptr, *out = nullptr;
    Sock* peer = nullptr;
    int peerHost = 0, peerPort = 0;
    bool canReadEof() { return in && ((in->finDelivered && in->rbuf.empty()) || in->rst); }
    bool readable()
    {
        if (st == LISTEN) return !backlog.empty();
        if (st == CONN) return !in->rbuf.empty() || in->finDelivered || in->rst;
        return st == NEW || st == BOUND ? false : true;
    }
    bool writable()
    {
        if (st == CONN) return out->room() > 0 || out->rst || out->dead;
        return false;
    }
};

static std::vector<Sock*> allSocks;
static Node extNode; // not used directly; nodes[EXTNODE]

void Pipe::fire()
{
    if (!inflight.empty()) {
        uint32_t n = (uint32_t)inflight.size();
        uint32_t c = choose(DK_SEG, n < 65536 ? n : 65536, [&]() -> uint32_t {
            if (!drng.chance(segRate)) return 0;
            if (drng.chance(300)) return 1 + drng.below(3);
            return drng.below(n);
        });
        size_t k = c == 0 ? n : c;
        if (c) stat(ST_SEG);
        if (dead) { inflight.erase(0, k); return; }
        rbuf.append(inflight, 0, k);
        inflight.erase(0, k);
        logEvent(3, id, k);
        return;
    }
    if (fin && !finDelivered) {
        finDelivered = true;
        logEvent(4, id, 0);
    }
}

static Pipe* newPipe(Sock* w, Sock* r)
{
    Pipe* p = new Pipe();
    p->writer = w;
    p->reader = r;
    p->id = 100 + sockSeq++;
    p->ext = (w && w->node == &nodes[EXTNODE]) || (r && r->node == &nodes[EXTNODE]);
    addItem(p);
    return p;
}

static int lowestFd(Node* n)
{
    int fd = 3;
    while (n->fds.count(fd)) fd++;
    return fd;
}

static Sock* newSock(Node* n, int host)
{
    Sock* s = new Sock();
    s->node = n;
    s->host = host;
    s->id = sockSeq++;
    s->fd = lowestFd(n);
    n->fds[s->fd] = s;
    allSocks.push_back(s);
    return s;
}

static Node* meN() { return cur->node; }
static Sock* get(int fd)
{
    auto it = meN()->fds.find(fd);
    if (it == meN()->fds.end()) { errno = EBADF; return nullptr; }
    return it->second;
}

static Sock* findListener(int host, int port)
{
    for (Sock* s : allSocks)
        if (s->st == Sock::LISTEN && s->host == host && s->port == port) return s;
    return nullptr;
}

static void doClose(Sock* s)
{
    if (s->st == Sock::CLOSED) return;
    if (s->st == Sock::LISTEN) {
        for (Sock* b : s->backlog) { // never accepted: reset
            if (b->peer) { b->peer->in->reset(); b->in->dead = true; }
            b->st = Sock::CLOSED;
        }
        s->backlog.clear();
    }
    if (s->st == Sock::CONN) {
        s->out->fin = true;
        s->in->dead = true;
        s->in->rbuf.clear();
    }
    s->st = Sock::CLOSED;
}

void netNodeGone(Node* n)
{
    for (auto& e : n->fds) doClose(e.second);
    n->fds.clear();
}

void netStartRun()
{
    const Config& c = spec->cfg;
    rdRate = (int)c.get("rd", 0);
    wrRate = (int)c.get("wr", 0);
    eintrRate = (int)c.get("eintr", 0);
    segRate = (int)c.get("seg", 0);
    selRate = (int)c.get("sel", 0);
    holdRate = (int)c.get("hold", 0);
    holdMax = (int)c.get("holdmax", 1000);
    refRate = (int)c.get("refuse", 0);
    rstRate = (int)c.get("rst", 0);
    acceptErr = (int)c.get("accerr", 0);
    sockCap = (size_t)c.get("sockcap", 262144);
    dualStack = (int)c.get("dual", 0);
    nextEphemeral = 40000;
    sockSeq = 1;
}

std::string netDescribe()
{
    std::string s;
    for (Sock* k : allSocks) {
        if (k->st == Sock::CONN && k->in && !k->in->rbuf.empty())
            s += " unread:n" + std::to_string(k->node->id) + ":" + std::to_string(k->in->rbuf.size());
        if (s.size() > 200) break;
    }
    return s;
}

// address encoding: host h has 10.0.0.(h+1); localhost is 127.0.0.1
static int addrHost(const struct sockaddr* a, int self)
{
    if (a->sa_family == AF_INET) {
        uint32_t ip = ntohl(((const struct sockaddr_in*)a)->sin_addr.s_addr);
        if (ip == 0x7f000001 || ip == 0) return self;
        if ((ip & 0xffffff00) == 0x0a000000) return (int)(ip & 255) - 1;
        return -1;
    }
    if (a->sa_family == AF_INET6) {
        const unsigned char* b = ((const struct sockaddr_in6*)a)->sin6_addr.s6_addr;
        if (b[0] == 0xfd) return (int)b[15] - 1;
        return self;
    }
    return -1;
}
static int addrPort(const struct sockaddr* a)
{
    if (a->sa_family == AF_INET) return ntohs(((const struct sockaddr_in*)a)->sin_port);
    if (a->sa_family == AF_INET6) return ntohs(((const struct sockaddr_in6*)a)->sin6_port);
    return -1;
}
static void fillAddr(struct sockaddr* a, socklen_t* l, int host, int port)
{
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_port = htons((uint16_t)port);
    in.sin_addr.s_addr = htonl(0x0a000000 + host + 1);
    if (a && l) {
        socklen_t c = *l < sizeof in ? *l : (socklen_t)sizeof in;
        memcpy(a, &in, c);
        *l = sizeof in;
    }
}

// UNIX names: abstract ones have a length, others end with a zero
static int unixPort(const struct sockaddr_un* u, socklen_t l)
{
    const char* p = u->sun_path;
    size_t n = l > sizeof(sa_family_t) ? l - sizeof(sa_family_t) : 0;
    if (n && p[0]) n = strnlen(p, n);
    uint32_t h = 2166136261u;
    for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 16777619u;
    return 100000 + (int)(h % 1000000000u);
}

static Sock* establish(Sock* s, Sock* l)
{
    Sock* b = new Sock();
    b->id = sockSeq++;
    b->node = l->node;
    b->host = l->host;
    b->port = l->port;
    allSocks.push_back(b);
    if (!s->port) s->port = nextEphemeral++;
    b->peer = s;
    s->peer = b;
    b->peerHost = s->host; b->peerPort = s->port;
    s->peerHost = l->host; s->peerPort = l->port;
    s->out = b->in = newPipe(s, b);
    s->in = b->out = newPipe(b, s);
    s->st = b->st = Sock::CONN;
    l->backlog.push_back(b);
    return b;
}

static bool intr(const char*)
{
    if (!fault(DK_EINTR, eintrRate)) return false;
    stat(ST_EINTR);
    errno = EINTR;
    return true;
}

static int doConnect(Sock* s, int host, int port)
{
    yieldPoint("connect");
    if (fault(DK_CONN, refRate)) {
        stat(ST_CONNREF);
        errno = ECONNREFUSED;
        return -1;
    }
    Sock* l = host >= 0 ? findListener(host, port) : nullptr;
    if (!l) { errno = host < 0 ? EHOSTUNREACH : ECONNREFUSED; return -1; }
    while ((int)l->backlog.size() > l->backlogMax) {
        block([=] { return l->st != Sock::LISTEN || (int)l->backlog.size() <= l->backlogMax; }, "connect (backlog full)");
        if (l->st != Sock::LISTEN) { errno = ECONNREFUSED; return -1; }
    }
    if (s->st == Sock::CLOSED) { errno = EBADF; return -1; }
    establish(s, l);
    logEvent(5, s->id, l->id);
    return 0;
}

static ssize_t doRead(Sock* s, void* buf, size_t len, bool nonblock)
{
    yieldPoint("read");
    if (s->st != Sock::CONN) { errno = ENOTCONN; return -1; }
    if (intr("read")) return -1;
    if (!s->readable()) {
        if (nonblock) { errno = EAGAIN; return -1; }
        block([=] { return s->st != Sock::CONN || s->readable(); }, "read");
        if (s->st != Sock::CONN) { errno = EBADF; return -1; }
    }
    if (!s->in->rbuf.empty()) {
        if (len == 0) return 0;
        size_t av = s->in->rbuf.size() < len ? s->in->rbuf.size() : len;
        uint32_t c = choose(DK_RD, (uint32_t)(av < 65536 ? av : 65536), [&]() -> uint32_t {
            if (!drng.chance(rdRate)) return 0;
            if (drng.chance(400)) return 1 + drng.below(4);
            return drng.below((uint32_t)av);
        });
        size_t k = c ? c : av;
        if (c) stat(ST_RD);
        memcpy(buf, s->in->rbuf.data(), k);
        s->in->rbuf.erase(0, k);
        logEvent(6, s->id, k);
        stat(ST_BYTES, k);
        return (ssize_t)k;
    }
    if (s->in->rst) { errno = ECONNRESET; return -1; }
    return 0; // EOF
}

static ssize_t doWrite(Sock* s, const void* buf, size_t len, bool nonblock)
{
    yieldPoint("write");
    if (s->st != Sock::CONN) { errno = s->st == Sock::CLOSED ? EBADF : ENOTCONN; return -1; }
    if (len == 0) return 0;
    if (intr("write")) return -1;
    if (fault(DK_CONN, rstRate)) { // connection breaks
        stat(ST_RESET);
        s->in->reset();
        s->out->reset();
        s->out->inflight.clear();
        s->in->inflight.clear();
        errno = ECONNRESET;
        return -1;
    }
    if (s->out->rst) { errno = EPIPE; return -1; }
    if (s->out->dead) { // peer is gone: first write triggers a reset
        s->out->reset();
        s->in->reset();
        return (ssize_t)len;
    }
    if (s->out->room() == 0) {
        if (nonblock) { errno = EAGAIN; return -1; }
        block([=] { return s->st != Sock::CONN || s->out->room() > 0 || s->out->dead || s->out->rst; }, "write (buffer full)");
        if (s->st != Sock::CONN) { errno = EBADF; return -1; }
        if (s->out->rst) { errno = EPIPE; return -1; }
        if (s->out->dead) { s->out->reset(); s->in->reset(); return (ssize_t)len; }
    }
    size_t room = s->out->room();
    size_t av = room < len ? room : len;
    uint32_t c = choose(DK_WR, (uint32_t)(av < 65536 ? av : 65536), [&]() -> uint32_t {
        if (!drng.chance(wrRate)) return 0;
        if (drng.chance(400)) return 1 + drng.below(4);
        return drng.below((uint32_t)av);
    });
    size_t k = c ? c : av;
    if (c) stat(ST_WR);
    // a blocking socket without interruption takes everything, piece by piece
    size_t done = 0;
    auto put = [&](size_t q) {
        Pipe* p = s->out;
        if (p->inflight.empty()) {
            uint32_t h = choose(DK_HOLD, 65536, [&]() -> uint32_t {
                if (!drng.chance(holdRate)) return 0;
                return drng.below((uint32_t)holdMax);
            });
            if (h) { p->hold = now + h; stat(ST_HOLD); }
        }
        p->inflight.append((const char*)buf + done, q);
        done += q;
    };
    put(k);
    if (!c && !nonblock) {
        while (done < len) {
            block([=] { return s->st != Sock::CONN || s->out->room() > 0 || s->out->dead || s->out->rst; }, "write (buffer full)");
            if (s->st != Sock::CONN || s->out->rst || s->out->dead) break;
            size_t r = s->out->room();
            put(r < len - done ? r : len - done);
        }
    }
    logEvent(7, s->id, done);
    stat(ST_MSGS);
    return (ssize_t)done;
}

extern "C" {

int __wrap_socket(int family, int, int)
{
    Sock* s = newSock(meN(), meN()->host);
    s->family = family;
    return s->fd;
}

int __wrap_setsockopt(int fd, int level, int name, const void* val, socklen_t)
{
    Sock* s = get(fd);
    if (!s) return -1;
    if (level == SOL_SOCKET && name == SO_REUSEADDR) s->reuse = *(const int*)val != 0;
    return 0;
}

int __wrap_getsockopt(int fd, int level, int name, void* val, socklen_t* l)
{
    Sock* s = get(fd);
    if (!s) return -1;
    if (val && l && *l >= sizeof(int)) *(int*)val = 0;
    (void)level; (void)name;
    return 0;
}

int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l)
{
    yieldPoint("bind");
    Sock* s = get(fd);
    if (!s) return -1;
    if (a->sa_family == AF_UNIX) {
        // abstract or path name: hash to a "port" on the own host
        const struct sockaddr_un* u = (const struct sockaddr_un*)a;
        int port = unixPort(u, l);
        for (Sock* o : allSocks)
            if (o != s && (o->st == Sock::LISTEN || o->st == Sock::BOUND) && o->host == s->host && o->port == port) {
                errno = EADDRINUSE;
                return -1;
            }
        s->port = port;
        s->st = Sock::BOUND;
        return 0;
    }
    int h = addrHost(a, s->host);
    if (h != s->host) { errno = EADDRNOTAVAIL; return -1; }
    int port = addrPort(a);
    if (port == 0) port = nextEphemeral++;
    for (Sock* o : allSocks) {
        if (o == s || o->host != s->host || o->port != port || o->peer) continue;
        if (o->st == Sock::LISTEN || (o->st == Sock::BOUND && !(o->reuse && s->reuse))) {
            errno = EADDRINUSE;
            return -1;
        }
    }
    s->port = port;
    s->st = Sock::BOUND;
    return 0;
}

int __wrap_listen(int fd, int backlog)
{
    yieldPoint("listen");
    Sock* s = get(fd);
    if (!s) return -1;
    if (s->st == Sock::NEW) s->port = nextEphemeral++;
    for (Sock* o : allSocks)
        if (o != s && o->st == Sock::LISTEN && o->host == s->host && o->port == s->port) {
            errno = EADDRINUSE;
            return -1;
        }
    s->st = Sock::LISTEN;
    s->backlogMax = backlog;
    return 0;
}

int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l)
{
    yieldPoint("accept");
    Sock* s = get(fd);
    if (!s) return -1;
    if (s->st != Sock::LISTEN) { errno = EINVAL; return -1; }
    if (intr("accept")) return -1;
    if (s->backlog.empty()) {
        if (s->nonblock) { errno = EAGAIN; return -1; }
        block([=] { return s->st != Sock::LISTEN || !s->backlog.empty(); }, "accept");
        if (s->st != Sock::LISTEN) { errno = EBADF; return -1; }
    }
    if (fault(DK_CONN, acceptErr)) { errno = ECONNABORTED; return -1; }
    Sock* b = s->backlog.front();
    s->backlog.pop_front();
    b->node = meN();
    b->fd = lowestFd(b->node);
    b->node->fds[b->fd] = b;
    fillAddr(a, l, b->peerHost, b->peerPort);
    logEvent(8, b->id, b->fd);
    return b->fd;
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int) { return __wrap_accept(fd, a, l); }

int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l)
{
    Sock* s = get(fd);
    if (!s) return -1;
    if (a->sa_family == AF_UNIX) {
        const struct sockaddr_un* u = (const struct sockaddr_un*)a;
        return doConnect(s, s->host, unixPort(u, l));
    }
    if (a->sa_family == AF_INET6 && dualStack) { // nobody listens on IPv6
        yieldPoint("connect");
        errno = ECONNREFUSED;
        return -1;
    }
    return doConnect(s, addrHost(a, s->host), addrPort(a));
}

int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l)
{
    Sock* s = get(fd);
    if (!s) return -1;
    fillAddr(a, l, s->host, s->port);
    return 0;
}
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* l)
{
    Sock* s = get(fd);
    if (!s) return -1;
    fillAddr(a, l, s->peerHost, s->peerPort);
    return 0;
}

int __wrap_getaddrinfo(const char* host, const char* serv, const struct addrinfo* hints, struct addrinfo** out)
{
    int self = meN()->host, h = -1;
    bool loop = false;
    if (!host) { loop = true; h = self; }
    else if (!strcmp(host, "localhost") || !strcmp(host, "127.0.0.1")) { loop = true; h = self; }
    else if (!strcmp(host, "0.0.0.0") || !strcmp(host, "::")) { loop = true; h = self; }
    else if (sscanf(host, "host%d", &h) == 1) {
        bool known = false;
        for (int i = 0; i < numNodes; i++) known |= nodes[i].host == h;
        if (!known) return EAI_NONAME;
    }
    else return EAI_NONAME;
    int port = serv ? atoi(serv) : 0;
    int fam = hints ? hints->ai_family : AF_UNSPEC;
    struct addrinfo *first = nullptr, **tail = &first;
    if (dualStack && fam != AF_INET) {
        struct addrinfo* ai = (struct addrinfo*)calloc(1, sizeof *ai);
        struct sockaddr_in6* a = (struct sockaddr_in6*)calloc(1, sizeof *a);
        a->sin6_family = AF_INET6;
        a->sin6_port = htons((uint16_t)port);
        if (loop) a->sin6_addr.s6_addr[15] = 1;
        else { a->sin6_addr.s6_addr[0] = 0xfd; a->sin6_addr.s6_addr[15] = (unsigned char)(h + 1); }
        ai->ai_family = AF_INET6;
        ai->ai_socktype = SOCK_STREAM;
        ai->ai_addr = (struct sockaddr*)a;
        ai->ai_addrlen = sizeof *a;
        *tail = ai;
        tail = &ai->ai_next;
    }
    struct addrinfo* ai = (struct addrinfo*)calloc(1, sizeof *ai);
    struct sockaddr_in* a = (struct sockaddr_in*)calloc(1, sizeof *a);
    a->sin_family = AF_INET;
    a->sin_port = htons((uint16_t)port);
    a->sin_addr.s_addr = htonl(loop ? 0x7f000001 : 0x0a000000 + h + 1);
    ai->ai_family = AF_INET;
    ai->ai_socktype = SOCK_STREAM;
    ai->ai_addr = (struct sockaddr*)a;
    ai->ai_addrlen = sizeof *a;
    *tail = ai;
    *out = first;
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo*) {}

int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    int arg = va_arg(ap, int);
    va_end(ap);
    Sock* s = get(fd);
    if (!s) return -1;
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    int arg = va_arg(ap, int);
    va_end(ap);
    return __wrap_fcntl(fd, cmd, arg);
}

int __wrap_socketpair(int, int, int, int sv[2])
{
    Sock* a = newSock(meN(), meN()->host);
    Sock* b = newSock(meN(), meN()->host);
    a->peer = b; b->peer = a;
    a->out = b->in = newPipe(a, b);
    a->in = b->out = newPipe(b, a);
    a->st = b->st = Sock::CONN;
    sv[0] = a->fd;
    sv[1] = b->fd;
    return 0;
}
int __wrap_pipe(int sv[2]) { return __wrap_socketpair(0, 0, 0, sv); }

int __wrap_close(int fd)
{
    yieldPoint("close");
    Sock* s = get(fd);
    if (!s) return -1;
    meN()->fds.erase(fd);
    doClose(s);
    logEvent(9, s->id, 0);
    return 0;
}
int __wrap_shutdown(int fd, int how)
{
    Sock* s = get(fd);
    if (!s) return -1;
    if (s->st == Sock::CONN && how != SHUT_RD) s->out->fin = true;
    return 0;
}

ssize_t __wrap_read(int fd, void* buf, size_t len)
{
    Sock* s = get(fd);
    if (!s) return -1;
    return doRead(s, buf, len, s->nonblock);
}
ssize_t __wrap_recv(int fd, void* buf, size_t len, int flags)
{
    Sock* s = get(fd);
    if (!s) return -1;
    if (flags & MSG_PEEK) {
        yieldPoint("peek");
        if (s->st != Sock::CONN) { errno = ENOTCONN; return -1; }
        if (!s->readable()) {
            if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
            block([=] { return s->st != Sock::CONN || s->readable(); }, "peek");
        }
        size_t av = std::min(len, s->in->rbuf.size());
        if (av) { memcpy(buf, s->in->rbuf.data(), av); return (ssize_t)av; }
        if (s->in->rst) { errno = ECONNRESET; return -1; }
        return 0;
    }
    return doRead(s, buf, len, s->nonblock || (flags & MSG_DONTWAIT));
}
ssize_t __wrap_write(int fd, const void* buf, size_t len)
{
    if (fd == 1 || fd == 2) return (ssize_t)len;
    Sock* s = get(fd);
    if (!s) return -1;
    return doWrite(s, buf, len, s->nonblock);
}
ssize_t __wrap_send(int fd, const void* buf, size_t len, int flags)
{
    Sock* s = get(fd);
    if (!s) return -1;
    return doWrite(s, buf, len, s->nonblock || (flags & MSG_DONTWAIT));
}
ssize_t __wrap_writev(int fd, const struct iovec* iov, int cnt)
{
    Sock* s = get(fd);
    if (!s) return -1;
    std::string all;
    for (int i = 0; i < cnt; i++) all.append((const char*)iov[i].iov_base, iov[i].iov_len);
    return doWrite(s, all.data(), all.size(), s->nonblock);
}
ssize_t __wrap_readv(int fd, const struct iovec* iov, int cnt)
{
    Sock* s = get(fd);
    if (!s) return -1;
    if (cnt < 1) return 0;
    return doRead(s, iov[0].iov_base, iov[0].iov_len, s->nonblock);
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int) { return __wrap_writev(fd, m->msg_iov, (int)m->msg_iovlen); }

int __wrap_select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv)
{
    yieldPoint("select");
    Node* n = meN();
    fd_set rs, ws;
    FD_ZERO(&rs);
    FD_ZERO(&ws);
    if (r) rs = *r;
    if (w) ws = *w;
    for (int fd = 0; fd < nfds; fd++)
        if ((FD_ISSET(fd, &rs) || FD_ISSET(fd, &ws)) && !n->fds.count(fd)) { errno = EBADF; return -1; }
    if (intr("select")) return -1;
    auto any = [=]() {
        for (int fd = 0; fd < nfds; fd++) {
            auto it = n->fds.find(fd);
            if (it == n->fds.end()) continue;
            if (FD_ISSET(fd, &rs) && it->second->readable()) return true;
            if (FD_ISSET(fd, &ws) && it->second->writable()) return true;
        }
        return false;
    };
    uint64_t dl = UINT64_MAX;
    if (tv) dl = now + (uint64_t)tv->tv_sec * 1000000 + tv->tv_usec;
    bool poll0 = tv && tv->tv_sec == 0 && tv->tv_usec == 0;
    if (!any() && !poll0) block(any, "select", dl);
    int cnt = 0;
    std::vector<std::pair<int, int>> ready;
    for (int fd = 0; fd < nfds; fd++) {
        auto it = n->fds.find(fd);
        if (it == n->fds.end()) continue;
        if (FD_ISSET(fd, &rs) && it->second->readable()) ready.push_back({ fd, 0 });
        if (FD_ISSET(fd, &ws) && it->second->writable()) ready.push_back({ fd, 1 });
    }
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    // more sockets may become ready only just afterwards: report one of them first
    uint32_t only = 0;
    if (ready.size() > 1)
        only = choose(DK_SEL, (uint32_t)ready.size() + 1, [&]() -> uint32_t {
            return drng.chance(selRate) ? 1 + drng.below((uint32_t)ready.size()) : 0;
        });
    if (only) stat(ST_SEL);
    for (size_t i = 0; i < ready.size(); i++) {
        if (only && i + 1 != only) continue;
        if (ready[i].second == 0) FD_SET(ready[i].first, r);
        else FD_SET(ready[i].first, w);
        cnt++;
    }
    return cnt;
}

int __wrap_poll(struct pollfd* p, nfds_t cnt, int timeout)
{
    yieldPoint("poll");
    Node* n = meN();
    if (intr("poll")) return -1;
    auto eval = [=](bool set) {
        int c = 0;
        for (nfds_t i = 0; i < cnt; i++) {
            short re = 0;
            if (p[i].fd >= 0) {
                auto it = n->fds.find(p[i].fd);
                if (it == n->fds.end()) re = POLLNVAL;
                else {
                    Sock* s = it->second;
                    if ((p[i].events & POLLIN) && s->readable()) re |= POLLIN;
                    if ((p[i].events & POLLOUT) && s->writable()) re |= POLLOUT;
                    if (s->st == Sock::CONN && s->in->rst) re |= POLLERR | POLLHUP;
                    else if (s->st == Sock::CONN && s->in->finDelivered && s->out->fin) re |= POLLHUP;
                }
            }
            if (set) p[i].revents = re;
            if (re) c++;
        }
        return c;
    };
    if (eval(false) == 0 && timeout != 0)
        block([=] { return eval(false) > 0; }, "poll", timeout < 0 ? UINT64_MAX : now + (uint64_t)timeout * 1000);
    int c = eval(true);
    if (c > 1) {
        uint32_t only = choose(DK_SEL, (uint32_t)c + 1, [&]() -> uint32_t {
            return drng.chance(selRate) ? 1 + drng.below((uint32_t)c) : 0;
        });
        if (only) {
            stat(ST_SEL);
            uint32_t k = 0;
            for (nfds_t i = 0; i < cnt; i++)
                if (p[i].revents && ++k != only) p[i].revents = 0;
            c = 1;
        }
    }
    return c;
}

} // extern C

// --------------------------------------------------------------- ext clients

int extConnect(int host, int port)
{
    Sock* s = newSock(cur->node, 200);
    if (doConnect(s, host, port) < 0) { cur->node->fds.erase(s->fd); s->st = Sock::CLOSED; return -1; }
    return s->fd;
}
bool extSend(int h, const std::string& d)
{
    Sock* s = get(h);
    if (!s) return false;
    size_t o = 0;
    while (o < d.size()) {
        ssize_t k = doWrite(s, d.data() + o, d.size() - o, false);
        if (k < 0) { if (errno == EINTR) continue; return false; }
        o += (size_t)k;
    }
    return true;
}
std::string extRecvSome(int h, uint64_t timeout)
{
    Sock* s = get(h);
    if (!s) return "";
    if (!s->readable()) block([=] { return s->readable(); }, "ext read", now + timeout);
    std::string r = s->in->rbuf;
    s->in->rbuf.clear();
    return r;
}
void extClose(int h)
{
    Sock* s = get(h);
    if (!s) return;
    cur->node->fds.erase(h);
    doClose(s);
}

// what became of everything sent on this connection: 0 on its way, 1 arrived, 2 lost
std::function<int()> extWatch(int h)
{
    Sock* s = get(h);
    if (!s || !s->out) return [] { return 2; };
    Pipe* p = s->out;
    return [=] { return p->dead || p->lost ? 2 : p->inflight.empty() ? (!p->fin || p->finDelivered || p->rst ? 1 : 0) : 0; };
}
// has the other side closed this connection?
std::function<bool()> extPeerClosed(int h)
{
    Sock* s = get(h);
    if (!s || !s->peer) return [] { return true; };
    Sock* b = s->peer;
    return [=] { return b->st == Sock::CLOSED; };
}
bool netQuiet(Node* n)
{
    for (auto& e : n->fds)
        if (e.second->st == Sock::CONN && !e.second->out->inflight.empty()) return false;
    return true;
}
int netOpen(Node* n) { return (int)n->fds.size(); }
int netListenPort(Node* n)
{
    for (auto& e : n->fds) if (e.second->st == Sock::LISTEN) return e.second->port;
    return -1;
}
