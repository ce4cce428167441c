// Network seam: libcurl easy API replaced by a simulated HTTP server.
#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo

namespace sim {
HttpStats http_stats;
static std::function<bool(const std::string&, std::string&)>* g_server;
void set_http_server(std::function<bool(const std::string&, std::string&)> f) { g_server = new std::function<bool(const std::string&, std::string&)>(f); }
static std::function<uint64_t(const std::string&)>* g_hole;
void set_http_hole(std::function<uint64_t(const std::string&)> f) { g_hole = new std::function<uint64_t(const std::string&)>(f); }
struct Easy
{
    std::string url, range;
    bool nobody = false, failonerror = false, header = false;
    curl_write_callback wcb = nullptr, hcb = nullptr;
    void* wdata = nullptr;
    char* errbuf = nullptr;
    long code = 0;
    curl_off_t clen = -1;
    int inuse = 0;
};
} // namespace sim
using namespace sim;

extern "C" {
CURL* curl_easy_init(void) { return (CURL*)new Easy(); }
void curl_easy_cleanup(CURL* c) { delete (Easy*)c; }
void curl_easy_reset(CURL* c) { *(Easy*)c = Easy(); }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...)
{
    Easy* e = (Easy*)c;
    if (!e) return CURLE_BAD_FUNCTION_ARGUMENT;
    va_list ap;
    va_start(ap, o);
    switch (int(o)) {
    case CURLOPT_URL: { const char* s = va_arg(ap, const char*); e->url = s ? s : ""; break; }
    case CURLOPT_RANGE: { const char* s = va_arg(ap, const char*); e->range = s ? s : ""; break; }
    case CURLOPT_NOBODY: e->nobody = va_arg(ap, long); break;
    case CURLOPT_HTTPGET: if (va_arg(ap, long)) e->nobody = false; break;
    case CURLOPT_FAILONERROR: e->failonerror = va_arg(ap, long); break;
    case CURLOPT_HEADER: e->header = va_arg(ap, long); break;
    case CURLOPT_WRITEFUNCTION: e->wcb = va_arg(ap, curl_write_callback); break;
    case CURLOPT_WRITEDATA: e->wdata = va_arg(ap, void*); break;
    case CURLOPT_HEADERFUNCTION: e->hcb = va_arg(ap, curl_write_callback); break;
    case CURLOPT_ERRORBUFFER: e->errbuf = va_arg(ap, char*); break;
    default: break;
    }
    va_end(ap);
    return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...)
{
    Easy* e = (Easy*)c;
    va_list ap;
    va_start(ap, i);
    switch (int(i)) {
    case CURLINFO_RESPONSE_CODE: *va_arg(ap, long*) = e->code; break;
    case CURLINFO_CONTENT_LENGTH_DOWNLOAD: *va_arg(ap, double*) = double(e->clen); break;
    case CURLINFO_CONTENT_LENGTH_DOWNLOAD_T: *va_arg(ap, curl_off_t*) = e->clen; break;
    case CURLINFO_SIZE_DOWNLOAD_T: *va_arg(ap, curl_off_t*) = 0; break;
    default: { void** p = va_arg(ap, void**); *p = nullptr; }
    }
    va_end(ap);
    return CURLE_OK;
}
static CURLcode deliver(Easy* e, const char* p, size_t n, int pieces)
{
    // body arrives in several pieces, other threads may run in between
    size_t off = 0;
    while (off < n) {
        size_t k = n - off;
        if (pieces > 1) {
            k = (n + pieces - 1) / pieces;
            if (k > n - off) k = n - off;
        }
        point(K_IO);
        if (!e->wcb) return CURLE_OK;
        size_t w = e->wcb(const_cast<char*>(p + off), 1, k, e->wdata);
        if (w != k) return CURLE_WRITE_ERROR;
        off += k;
    }
    return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* c)
{
    Easy* e = (Easy*)c;
    if (e->inuse++) violation("lib-exclusive", "curl handle used by two threads at once");
    struct G { Easy* e; ~G() { e->inuse--; } } g{e};
    point(K_IO);
    event(40, e->nobody, e->range.size());
    Fault f;
    int mode = -1;
    if (fault_now(OP_HTTP, &f)) mode = int(f.param % 9);
    std::string body;
    (e->nobody ? http_stats.heads : http_stats.gets)++;
    e->code = 0;
    e->clen = -1;
    bool ok = g_server && (*g_server)(e->url, body);
    const int pieces = 1 + int(R->ops[OP_HTTP] % 4);
    if (mode == 0) return CURLE_COULDNT_CONNECT;
    if (mode == 1) return CURLE_OPERATION_TIMEDOUT;
    if (mode == 2 || !ok) { // server error, with an error page as body
        e->code = mode == 2 ? 503 : 404;
        static const char page[] = "<html><body>503 Service Unavailable</body></html>";
        if (e->failonerror) return CURLE_HTTP_RETURNED_ERROR;
        e->clen = sizeof page - 1;
        if (e->nobody) return CURLE_OK;
        return deliver(e, page, sizeof page - 1, 1);
    }
    const size_t hole = g_hole ? (*g_hole)(e->url) : 0, total = hole + body.size();
    size_t start = 0, end = total; // [start,end)
    bool ranged = false;
    if (!e->range.empty() && mode != 3) { // mode 3: server ignores the range header
        unsigned long a = 0, b = 0;
        if (sscanf(e->range.c_str(), "%lu-%lu", &a, &b) == 2) {
            ranged = true;
            if (a >= total) {
                e->code = 416;
                e->clen = 0;
                return e->failonerror ? CURLE_HTTP_RETURNED_ERROR : CURLE_OK;
            }
            start = a;
            end = b + 1 < total ? b + 1 : total;
        }
    }
    e->code = ranged ? 206 : 200;
    e->clen = end - start;
    if (mode == 4) e->clen = -1; // chunked transfer, no content length
    if (e->nobody) {
        if (mode == 5) return CURLE_RECV_ERROR;
        return CURLE_OK;
    }
    // the bytes sent; of a huge answer only the beginning, no client here accepts more
    if (hole) {
        if (end - start > (1 << 20)) end = start + (1 << 20);
        const size_t e2 = end + 7 < total ? end + 7 : total;
        std::string b2(e2 - start, '\0');
        for (size_t i = start > hole ? start : hole; i < e2; i++) b2[i - start] = body[i - hole];
        body.swap(b2);
        end -= start, start = 0;
    }
    if (mode == 5) { // connection drops in the middle
        size_t n = (end - start) / 2;
        CURLcode r = deliver(e, body.data() + start, n, pieces);
        return r != CURLE_OK ? r : CURLE_PARTIAL_FILE;
    }
    if (mode == 6) { // short body, apparently complete (no content-length / misbehaving proxy)
        size_t n = end - start;
        n = n > 1 ? n - 1 - (f.param / 9) % (n - 1) : n;
        e->clen = -1;
        return deliver(e, body.data() + start, n, pieces);
    }
    if (mode == 7) { // too many bytes
        size_t e2 = end + 7 < body.size() ? end + 7 : body.size();
        return deliver(e, body.data() + start, e2 - start, pieces);
    }
    if (mode == 8) { // empty body
        e->clen = 0;
        return CURLE_OK;
    }
    return deliver(e, body.data() + start, end - start, pieces);
}
const char* curl_easy_strerror(CURLcode) { return "simulated network error"; }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
}
