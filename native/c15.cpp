// random histories of recording and writing through the real data recording group, against a list of samples (C15)
#include "h.hh"
#include <map>
#include "trick/DataRecordGroup.hh"
#include "trick/reference.h"
using namespace Trick;
typedef long long ll;
typedef std::string Bytes;
static ll now_; static std::map<REF2 *, char *> place_;
extern "C" long long exec_get_time_tics() { return now_; }
extern "C" void *follow_address_path(REF2 *r) { return place_[r]; }
static std::string setup;
struct Group : DataRecordGroup {
    std::vector<Bytes> out; std::vector<int> size;
    Group() : DataRecordGroup("g") {}
    int format_specific_header(std::fstream &) override { return 0; }
    int format_specific_init() override { return 0; }
    int format_specific_shutdown() override { return 0; }
    int format_specific_write_data(unsigned int o) override { Bytes b; for (size_t i = 0; i < rec_buffer.size(); i++) b.append(rec_buffer[i]->buffer + o * size[i], size[i]); out.push_back(b); return (int)b.size(); }
};
static std::string hex(const Bytes &b) { std::string r; char t[4]; for (unsigned char c : b) { snprintf(t, 4, "%02x", c); r += t; } return r; }
int main(int c, char **v) {
    H h(c, v);
    static const int sizes[] = {8, 4, 2, 1, 3, 12, 16};
    JobData::time_tic_value = 100; static Group &g = *new Group; static JobData &job = *new JobData; g.write_job = &job;
    while (h.left()) {
        for (auto b : g.rec_buffer) { free(b->buffer); free(b->last_value); } g.rec_buffer.clear(); g.change_buffer.clear(); place_.clear();
        static std::vector<void *> junk; for (auto p : junk) free(p); junk.clear();
        int n = h.range(1, 4), w = h.range(0, 3), M = h.below(3) ? h.range(1, 6) : h.range(1, 40), type = h.below(3), freq = h.below(3); ll tv = h.below(4) ? 100 : 10; JobData::time_tic_value = tv;
        bool ring = type == DR_Ring_Buffer;
        g.max_num = M; g.buffer_num = g.writer_num = 0; g.freq = (DR_Freq)freq; g.buffer_type = (DR_Buffering)type; g.total_bytes_written = 0; g.record = true; g.inited = true; g.out.clear(); g.size.clear(); g.max_size_warning = false; g.curr_time = 0; g.max_file_size = 1 << 30;
        setup = "buffer of " + std::to_string(M) + " samples of type " + std::to_string(type) + ", frequency " + std::to_string(freq) + ", " + std::to_string(n) + " variables, " + std::to_string(w) + " watched";
        auto ref = [&](char *addr, int size, bool ptr) { REF2 *r = (REF2 *)calloc(1, sizeof(REF2)); ATTRIBUTES *a = (ATTRIBUTES *)calloc(1, sizeof(ATTRIBUTES)); junk.push_back(r); junk.push_back(a); a->size = size; a->type = TRICK_CHARACTER; r->attr = a; r->address = addr; r->pointer_present = ptr; place_[r] = addr; return r; };
        std::vector<char *> var, wat; std::vector<REF2 *> refs, wrefs; std::vector<Bytes> last, seen; std::vector<int> wsize;
        auto block = [&](int k) { char *p = (char *)malloc(k); for (int i = 0; i < k; i++) p[i] = (char)h.u(); return p; };
        for (int i = 0; i < n; i++) {
            int z = i ? sizes[h.below(7)] : 8; g.size.push_back(z); char *p = i ? block(z) : (char *)&g.curr_time; if (i) junk.push_back(p);
            DataRecordBuffer *b = (DataRecordBuffer *)calloc(1, sizeof(DataRecordBuffer)); junk.push_back(b); b->buffer = (char *)calloc(M, z); b->last_value = (char *)calloc(1, z); b->curr_buffer = b->buffer; b->ref = ref(p, z, i && h.coin()); g.rec_buffer.push_back(b); var.push_back(p); refs.push_back(b->ref); last.push_back(Bytes(z, 0));
        }
        for (int i = 0; i < w; i++) {
            int z = sizes[h.below(7)]; char *p = block(z); junk.push_back(p); DataRecordBuffer *b = (DataRecordBuffer *)calloc(1, sizeof(DataRecordBuffer)); junk.push_back(b); b->buffer = (char *)calloc(1, z); junk.push_back(b->buffer); b->ref = ref(p, z, h.coin()); g.change_buffer.push_back(b); wat.push_back(p); wrefs.push_back(b->ref); seen.push_back(Bytes(z, 0)); wsize.push_back(z);
        }
        now_ = h.range(0, 50); ll t = now_; g.logging_rates.clear(); std::vector<ll> rate, next;
        for (int i = h.range(1, 3); i > 0; i--) {
            ll k = h.range(1, 12); g.logging_rates.emplace_back((double)k / tv); LoggingCycle &L = g.logging_rates.back();
            ll e = (now_ + k - 1) / k * k;
            if (L.rate_in_tics != k || L.next_cycle_in_tics != e) fail("a cycle of %lld tics set at tic %lld is next due at %lld instead of %lld", k, now_, L.next_cycle_in_tics, e);
            rate.push_back(k); next.push_back(e);
        }
        std::vector<Bytes> all; size_t written = 0, count = 0; int steps = h.range(1, 3 * M + 6);
        auto check = [&](const char *when) {
            if (g.out.size() != written) fail("%s: %zu samples have been written instead of %zu; %s", when, g.out.size(), written, setup.c_str());
        };
        auto flush = [&](bool must) {
            size_t from = count - written > (size_t)M ? count - M : written; bool act = g.record && (type == DR_No_Buffer || must); std::vector<Bytes> e;
            size_t before = g.out.size(); g.write_data(must);
            if (act) for (size_t k = from; k < count; k++) e.push_back(all[k]);
            if (g.out.size() - before != e.size()) fail("%zu of %zu waiting samples are written; %s", g.out.size() - before, e.size(), setup.c_str());
            for (size_t k = 0; k < e.size(); k++) if (g.out[before + k] != e[k]) fail("sample %zu is written as %s instead of %s; %s", from + k, hex(g.out[before + k]).c_str(), hex(e[k]).c_str(), setup.c_str());
            if (act) written = count; g.out.clear(); 
        };
        for (int k = 0; k < steps; k++) {
            if (h.below(12) == 0) g.record = !g.record;
            for (int i = 1; i < n; i++) { if (h.coin()) for (int q = 0; q < g.size[i]; q++) var[i][q] = (char)h.u(); if (refs[i]->pointer_present && h.below(4) == 0) { char *p = block(g.size[i]); junk.push_back(p); var[i] = p; place_[refs[i]] = p; } }
            for (int i = 0; i < w; i++) { if (h.below(4) == 0) wat[i][h.below(wsize[i])] ^= 1 << h.below(8); if (wrefs[i]->pointer_present && h.below(6) == 0) { char *p = (char *)malloc(wsize[i]); memcpy(p, wat[i], wsize[i]); junk.push_back(p); wat[i] = p; place_[wrefs[i]] = p; } }
            double time = (double)t / tv; size_t before = g.buffer_num; size_t w0 = g.writer_num, o0 = g.out.size(); bool change = false;
            if (g.record && freq != DR_Always) for (int i = 0; i < w; i++) { Bytes x(wat[i], wsize[i]); if (x != seen[i]) { change = true; seen[i] = x; } }
            bool take = g.record && (freq == DR_Always || count == 0 || change);
            g.data_record(time);
            if (g.buffer_num - before != (take ? freq == DR_Changes_Step ? 2u : 1u : 0u)) fail("at tic %lld, %zu samples are recorded; %s, %s", t, (size_t)g.buffer_num - before, take ? "one is due" : "none is due", setup.c_str());
            // what the recording itself has written
            if (g.out.size() > o0) { if (ring) fail("a ring buffer is written by recording; %s", setup.c_str()); if (g.out.size() - o0 != count - written) fail("recording writes %zu of %zu waiting samples; %s", g.out.size() - o0, count - written, setup.c_str()); for (size_t q = 0; q < g.out.size() - o0; q++) if (g.out[o0 + q] != all[written + q]) fail("sample %zu is written as %s instead of %s; %s", written + q, hex(g.out[o0 + q]).c_str(), hex(all[written + q]).c_str(), setup.c_str()); written = count; }
            if (g.writer_num != written) { if (!(ring && g.writer_num == w0)) fail("%u samples count as written, %zu are; %s", g.writer_num, written, setup.c_str()); }
            g.out.clear();
            if (take) {
                if (freq == DR_Changes_Step) { last[0].assign((char *)&time, 8); Bytes b; for (int i = 0; i < n; i++) b += last[i]; all.push_back(b); count++; }
                Bytes b; for (int i = 0; i < n; i++) { last[i] = i ? Bytes(var[i], g.size[i]) : Bytes((char *)&time, 8); b += last[i]; } all.push_back(b); count++;
            }
            // with room for one sample only, the point before a step cannot be kept
            if (M == 1 && freq == DR_Changes_Step) { written = count > 0 && written + 1 < count ? count - 1 : written; g.writer_num = written; }
            if (!ring && count - written > (size_t)M) fail("%zu samples wait in a buffer of %d; %s", count - written, M, setup.c_str());
            ll best = -1; for (size_t q = 0; q < rate.size(); q++) { while (next[q] <= t) next[q] += rate[q]; if (best < 0 || next[q] < best) best = next[q]; if (g.logging_rates[q].next_cycle_in_tics != next[q]) fail("at tic %lld, a cycle of %lld tics is next due at %lld instead of %lld", t, rate[q], g.logging_rates[q].next_cycle_in_tics, next[q]); }
            if (job.next_tics != best || job.cycle_tics != best - t) fail("after tic %lld, recording is next due at %lld instead of %lld (cycle %lld)", t, job.next_tics, best, job.cycle_tics);
            t = best;
            if (h.below(5) == 0) flush(h.coin());
        }
        g.record = true; flush(true);
        (void)check;
    }
    return h.ok();
}
