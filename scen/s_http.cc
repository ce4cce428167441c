// Chunk readers: local files and objects behind HTTP, used by the GRIB reader, the file type detection and the XML input.
#include "harness.h"
#include "fimex/ChunkReader.h"
#include "fimex/ChunkReaderFactory.h"
#include "fimex/XMLDoc.h"
#include "fimex/XMLUtils.h"
#include <atomic>
#include <fcntl.h>
#include <unistd.h>
using namespace hs;
using namespace sim;

namespace {
struct Obj
{
    std::string name, data;
    bool http;
    size_t hole = 0; // zero bytes in front of the data, for huge objects
    size_t size() const { return hole + data.size(); }
    std::string bytes(size_t off, size_t n) const
    {
        std::string s(n, '\0');
        for (size_t i = off > hole ? off : hole; i < off + n; i++) s[i - off] = data[i - hole];
        return s;
    }
};
std::string random_bytes(Rng& r, size_t n)
{
    std::string s(n, 0);
    for (auto& c : s) c = char(r.next() & 0xff);
    return s;
}
void serve(const std::vector<Obj>& os)
{
    static std::vector<Obj> all;
    all = os;
    set_http_server([](const std::string& url, std::string& body) {
        for (auto& o : all)
            if (o.http && o.name == url) { body = o.data; return true; }
        return false;
    });
    set_http_hole([](const std::string& url) -> uint64_t {
        for (auto& o : all)
            if (o.http && o.name == url) return o.hole;
        return 0;
    });
}
std::vector<Obj> random_objects(Rng& r, bool http, bool files)
{
    std::vector<Obj> os;
    const int n = r.range(1, 3);
    const char* suffix[3] = {"0", "1", "12"}; // a name may begin with the name of another object
    for (int i = 0; i < n; i++) {
        Obj o;
        o.http = http && (!files || r.chance(1, 2));
        o.data = random_bytes(r, size_t(r.chance(1, 4) ? r.range(1, 10) : r.range(10, 9000)));
        o.name = (o.http ? "http://server.example/data" : scratch + "data") + suffix[i];
        if (r.chance(1, 6)) { // huge, around the limits of 32 bit integers
            const size_t around[3] = {size_t(1) << 31, size_t(1) << 32, size_t(3) << 32};
            o.hole = around[r.range(0, 2)] - r.below(12000) + r.below(6000);
        }
        if (!o.http) {
            if (o.hole) {
                const int fd = open(o.name.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0666);
                if (fd < 0 || pwrite(fd, o.data.data(), o.data.size(), off_t(o.hole)) != ssize_t(o.data.size())) abort();
                close(fd);
            } else
                write_file(o.name, o.data);
        }
        os.push_back(o);
    }
    serve(os);
    return os;
}
const std::vector<FaultKindOpt> chunk_faults = {{F_HTTP, 6}, {F_READ_EIO, 2}, {F_READ_EOF, 2}, {F_READ_SHORT, 2}, {F_READ_EINTR, 1}, {F_OPEN_FAIL, 1}, {F_SEEK_FAIL, 2}};

struct Rq { int obj; size_t off, n; };
std::vector<Rq> random_reads(Rng& r, const std::vector<Obj>& os)
{
    std::vector<Rq> q;
    for (int k = r.range(1, 5); k > 0; k--) {
        Rq x;
        x.obj = int(r.below(os.size()));
        const size_t sz = os[x.obj].size(), first = os[x.obj].hole ? os[x.obj].hole - 100 : 0;
        x.off = first + r.below(sz - first + 1);
        x.n = r.below(sz - x.off + 1);
        int z = r.range(0, 9);
        if (z == 0) x.off = first, x.n = sz - first;
        if (z == 3 && first) x.off = 0, x.n = 100;
        if (z == 1) x.n += 1 + r.below(20); // maybe past the end
        if (z == 2) x.off = sz + r.below(20), x.n = 1 + r.below(5);
        q.push_back(x);
    }
    return q;
}
// one read; returns the difference. Errors are allowed only if a fault fired or the range is outside the object
std::string one_read(const ChunkReader_p& cr, const Obj& o, const Rq& q, bool faults)
{
    std::string buf(q.n + 16, 'g');
    Outcome oc = attempt([&] { cr->read(q.off, q.n, reinterpret_cast<unsigned char*>(&buf[8])); });
    std::ostringstream m;
    m << (o.http ? "http" : "file") << " object of " << o.size() << " bytes, read " << q.n << " at " << q.off << ": ";
    for (size_t i = 0; i < 8; i++)
        if (buf[i] != 'g' || buf[8 + q.n + i] != 'g') return m.str() + "bytes outside the buffer were written";
    const bool inside = q.off + q.n <= o.size();
    if (oc.threw) {
        probe("read_error");
        if (!faults && inside) return m.str() + "failed without any fault: " + oc.what;
        return "";
    }
    if (!inside && q.n > 0) return m.str() + "success although the object ends before";
    if (inside && o.bytes(q.off, q.n).compare(0, q.n, buf, 8, q.n) != 0) return m.str() + "success but the bytes are not those of the object";
    note_outcome(buf);
    return "";
}
} // namespace

static void chunks(Rng& rng, bool faulty)
{
    auto os = random_objects(rng, true, true);
    const int nt = rng.range(1, 4);
    std::vector<Rq> qs[4];
    for (int t = 0; t < nt; t++) qs[t] = random_reads(rng, os);
    const bool shared = rng.chance(2, 3);
    const bool keep = rng.chance(1, 2);
    auto work = [&](ChunkReaderFactory_p fac, const std::vector<Rq>& q, bool faults, bool check) {
        std::map<int, ChunkReader_p> kept;
        for (auto& x : q) {
            const Obj& o = os[x.obj];
            ChunkReader_p cr;
            if (keep && kept.count(x.obj)) cr = kept[x.obj];
            else {
                size_t sz = 0;
                Outcome oc = attempt([&] { cr = fac->readerFor(o.http || x.off % 2 ? o.name : "file:" + o.name); sz = cr->size(); });
                if (oc.threw) {
                    if (check && !faults) violation("unexpected-error", "opening %s failed without any fault: %s", o.name.c_str(), oc.what.c_str());
                    continue;
                }
                if (check && sz != o.size()) violation("wrong-size", "%s object of %zu bytes has size %zu", o.http ? "http" : "file", o.size(), sz);
                kept[x.obj] = cr;
            }
            if (!cr) continue;
            std::string e = one_read(cr, o, x, faults);
            if (check && !e.empty()) violation("wrong-bytes", "%s", e.c_str());
        }
    };
    std::vector<Fault> fs;
    if (faulty) {
        OpCount c = rehearse([&] { for (int t = 0; t < nt; t++) work(createDefaultChunkReaderFactory(), qs[t], true, false); });
        fs = draw_faults(rng, c, chunk_faults);
        use_faults(fs);
        arm_faults(true);
    }
    sample("%d threads, %zu objects, shared factory %d faults: %s", nt, os.size(), int(shared), fault_text(fs).c_str());
    auto fac = createDefaultChunkReaderFactory();
    for (int t = 0; t < nt; t++)
        spawn([&, t] { work(shared ? fac : createDefaultChunkReaderFactory(), qs[t], faulty, true); });
    join_all();
    arm_faults(false);
    // once the faults have stopped, everything can be read again
    if (faulty) {
        Quiet q;
        auto f2 = createDefaultChunkReaderFactory();
        for (auto& o : os) {
            Outcome oc = attempt([&] {
                std::string e = one_read(f2->readerFor(o.name), o, {0, o.hole, o.data.size()}, false);
                if (!e.empty()) violation("no-recovery", "%s", e.c_str());
            });
            if (oc.threw) violation("no-recovery", "opening %s failed after the faults had stopped: %s", o.name.c_str(), oc.what.c_str());
        }
        // the same for readers kept in the factory used during the faults
        for (auto& o : os) {
            Outcome oc = attempt([&] {
                std::string e = one_read(fac->readerFor(o.name), o, {0, o.hole, o.data.size()}, false);
                if (!e.empty()) violation("no-recovery", "%s", e.c_str());
            });
            if (oc.threw) violation("no-recovery", "opening %s failed after the faults had stopped: %s", o.name.c_str(), oc.what.c_str());
        }
    }
}
SIM_SCENARIO(S13, chunks, 2) { chunks(rng, false); }
SIM_SCENARIO(S13, chunk_faults, 4) { chunks(rng, true); }

// XML documents behind http, in local files read by libxml and through chunk readers
SIM_SCENARIO(S13, xml, 3)
{
    const int n = rng.range(1, 300);
    const uint64_t salt = rng.next();
    std::string x = "<?xml version=\"1.0\"?>\n<root>";
    for (int i = 0; i < n; i++) x += "<item id=\"" + std::to_string(i) + "\" v=\"" + std::to_string((salt >> 8) % 1000 + i * 7) + "\"/>\n";
    x += "</root>\n";
    const int kind = rng.range(0, 2); // http, file through chunk reader, file through libxml
    Obj o{kind == 0 ? "http://server.example/config.xml" : scratch + "config.xml", x, kind == 0};
    if (kind) write_file(o.name, x);
    serve({o});
    auto load = [&]() -> XMLDoc_p {
        if (kind == 2) return XMLDoc::fromFile(o.name);
        return std::make_shared<XMLDoc>(createDefaultChunkReaderFactory()->readerFor(o.name), o.name);
    };
    const int nt = rng.range(1, 3);
    OpCount c = rehearse([&] { for (int t = 0; t < nt; t++) load(); });
    std::vector<Fault> fs;
    const bool faulty = rng.chance(3, 4);
    if (faulty) fs = draw_faults(rng, c, chunk_faults);
    sample("xml of %zu bytes, kind %d, %d threads, faults: %s", x.size(), kind, nt, fault_text(fs).c_str());
    if (faulty) {
        use_faults(fs);
        arm_faults(true);
    }
    for (int t = 0; t < nt; t++)
        spawn([&] {
            XMLDoc_p d;
            Outcome oc = attempt([&] { d = load(); });
            if (oc.threw) {
                probe("xml_error");
                if (!faulty) violation("unexpected-error", "reading xml failed without any fault: %s", oc.what.c_str());
                return;
            }
            XPathNodeSet ns(d, "/root/item");
            if (int(ns.size()) != n) violation("wrong-bytes", "xml document with %d instead of %d elements", int(ns.size()), n);
            for (int i = 0; i < n; i++)
                if (getXmlProp(ns[i], "v") != std::to_string((salt >> 8) % 1000 + i * 7)) violation("wrong-bytes", "xml element %d of %d has a wrong value", i, n);
        });
    join_all();
    arm_faults(false);
}
