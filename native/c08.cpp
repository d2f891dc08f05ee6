// tc_read and tc_write against a network that fragments, delays and fails at will (C08)
#include "h.hh"
#include <cerrno>
#include <sys/socket.h>
#include "trick/tc.h"
#include "trick/tc_proto.h"
static H *hh; static char *buf_; static int size_, got_, style_; static int last_, err_; static bool broken_, gone_, cut_; static double elapsed_; static char data_[4096]; static std::string log_;
static char setup_[200];
static int eint_, sub_; static bool wr_;
static ssize_t net(void *p, size_t n) {
    if (broken_) fail("a transfer is tried after the connection broke; %s:%s", setup_, log_.c_str());
    if ((char *)p != buf_ + got_) fail("part %d starts %ld bytes into the buffer; %s:%s", got_, (long)((char *)p - buf_), setup_, log_.c_str());
    if (n > (size_t)(size_ - got_) || (n == 0 && got_ < size_)) fail("%zu bytes are asked for where %d are missing; %s:%s", n, size_ - got_, setup_, log_.c_str());
    int k = hh->below(16); char t[40];
    if (k < 2) { last_ = -1; errno = err_ = EINTR; snprintf(t, 40, " interrupted"); }
    else if (k < 5) { last_ = -1; errno = err_ = EAGAIN; snprintf(t, 40, " would block"); }
    else if (k == 5 && style_) { last_ = -1; static const int es[] = {ECONNRESET, EPIPE, EBADF, ETIMEDOUT, ENOMEM}; errno = err_ = es[hh->below(5)]; broken_ = true; snprintf(t, 40, " error %d", err_); }
    else if (k == 6 && style_) { last_ = 0; if (!wr_) broken_ = true; snprintf(t, 40, " 0"); }
    else { last_ = hh->coin() ? n : 1 + hh->below(n); if (!wr_) for (int i = 0; i < last_; i++) ((char *)p)[i] = data_[got_ + i]; else for (int i = 0; i < last_; i++) if (((char *)p)[i] != data_[got_ + i]) fail("byte %d sent is not the one given", got_ + i); got_ += last_; snprintf(t, 40, " %d", last_); }
    log_ += t; return last_;
}
extern "C" {
ssize_t c08_recvfrom(int, void *p, size_t n, int, struct sockaddr *, socklen_t *) { return net(p, n); }
ssize_t c08_sendto(int, const void *p, size_t n, int, const struct sockaddr *, socklen_t) { return net((void *)p, n); }
int c08_usleep(useconds_t) { return 0; }
int tc_disconnect(TCDevice *d) { if (!broken_) fail("an unbroken connection is given up; %s:%s", setup_, log_.c_str()); if (gone_) fail("given up twice"); gone_ = true; d->socket = -1; return 0; }
double tc_clock_init(void) { return 0; }
double tc_clock_time(double) { if (hh->below(4) == 0) elapsed_ += 1; return elapsed_; }
void trick_error_report(TrickErrorHndlr *, TrickErrorLevel, const char *, int, const char *, ...) {}
}
int main(int c, char **v) {
    H h(c, v); hh = &h;
    static const char *modes[] = {"blocking", "non-blocking", "timed", "all or nothing"};
    while (h.more()) {
        TCDevice d; memset(&d, 0, sizeof d); d.socket = 7; d.socket_type = h.below(5) ? SOCK_STREAM : SOCK_DGRAM; int m = h.below(4); d.blockio_type = (TCCommBlocking)m; d.blockio_limit = h.range(0, 3); strcpy(d.client_tag, "t");
        wr_ = h.coin(); size_ = h.below(4) ? h.range(0, 20) : h.range(0, 300); got_ = 0; last_ = 1; err_ = 0; broken_ = gone_ = false; elapsed_ = 0; style_ = h.coin(); log_.clear();
        if (h.below(20) == 0) d.disabled = TC_COMM_TRUE; else if (h.below(20) == 0) d.socket = -1;
        bool usable = !d.disabled && d.socket != -1;
        snprintf(setup_, sizeof setup_, "%s %s of %d bytes", modes[m], wr_ ? "write" : "read", size_);
        for (int i = 0; i < size_; i++) data_[i] = (char)h.u();
        buf_ = (char *)malloc(size_ + 1); if (wr_) memcpy(buf_, data_, size_); else memset(buf_, 0, size_); buf_[size_] = 99;
        std::string was(buf_, size_ + 1);
        int r = wr_ ? tc_write_(&d, buf_, size_, "", 0) : tc_read_(&d, buf_, size_, "", 0);
        if (!usable) { if (r != -1 || !log_.empty()) fail("an unusable device: %d", r); free(buf_); continue; }
        bool wait = last_ == -1 && err_ == EAGAIN && !log_.empty();
        if (r != got_ && !(r == -1 && got_ == 0)) fail("%d is returned where %d bytes were transferred; %s:%s", r, got_, setup_, log_.c_str());
        if (r == -1 && !(wait && (m == TC_COMM_NOBLOCKIO || m == TC_COMM_ALL_OR_NOTHING))) fail("-1 is returned; %s:%s", setup_, log_.c_str());
        if (r == 0 && wait && (m == TC_COMM_NOBLOCKIO || m == TC_COMM_ALL_OR_NOTHING)) fail("0 is returned where nothing was ready; %s:%s", setup_, log_.c_str());
        if (broken_ && !gone_) fail("a broken connection is kept; %s:%s", setup_, log_.c_str());
        bool dg = !wr_ && d.socket_type == SOCK_DGRAM && last_ > 0;
        if (r != size_ && !broken_ && !dg && !(m == TC_COMM_TIMED_BLOCKIO && elapsed_ > d.blockio_limit) && !(m == TC_COMM_NOBLOCKIO && wait) && !(m == TC_COMM_ALL_OR_NOTHING && wait && got_ == 0)) fail("only %d bytes are transferred; %s:%s", r, setup_, log_.c_str());
        if (!wr_) was.replace(0, got_, std::string(data_, got_));
        if (std::string(buf_, size_ + 1) != was) fail("the buffer holds something else than what was received; %s:%s", setup_, log_.c_str());
        free(buf_);
    }
    return h.ok();
}
