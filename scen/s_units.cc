// Unit and time conversion used from several threads; logging used from several threads.
#include <algorithm>
#include "harness.h"
#include "fimex/FimexTime.h"
#include "fimex/Logger.h"
#include "fimex/ReplaceStringTimeObject.h"
#include "fimex/TimeUnit.h"
#include "fimex/TimeUtils.h"
#include "fimex/Units.h"
#include "fimex/UnitsConverter.h"
#include "fimex/UnitsException.h"

#include <cmath>
#include <iostream>
#include <sstream>
using namespace hs;
using namespace sim;

namespace {
struct Lin { const char* a; const char* b; double scale, offset; };
// independent table: b = scale * a + offset
const Lin lins[] = {{"K", "degC", 1, -273.15}, {"degC", "K", 1, 273.15}, {"m", "km", 0.001, 0}, {"hPa", "Pa", 100, 0}, {"Pa", "hPa", 0.01, 0}, {"degC", "degF", 1.8, 32},
                    {"m s-1", "km/h", 3.6, 0}, {"1", "%", 100, 0}, {"m2 s-2", "J/kg", 1, 0}, {"kg m-2", "kg m-2", 1, 0}, {"hours since 2000-01-01 00:00:00", "seconds since 1970-01-01 00:00:00", 3600, 946684800},
                    {"days since 1970-01-02", "hours since 1970-01-01", 24, 24}, {"min", "s", 60, 0}, {"g/kg", "1", 0.001, 0}, {"knots", "m/s", 1852. / 3600, 0}, {"W m-2", "mW cm-2", 0.1, 0},
                    {"seconds since 2000-01-01 00:00:00", "days since 1900-01-01 00:00:00", 1. / 86400, 36524}, {"hours since 2000-01-01 00:00:00", "days since 1850-01-01 00:00:00", 1. / 24, 54786}, {"degF", "K", 5. / 9, 459.67 * 5 / 9}, {"feet", "km", 0.0003048, 0}};
const char* const bad_units[] = {"nonsense_unit", "m m m(", "", "K//", "since", "hours since yesterday"};
const char* const groups[4][3] = {{"K", "degC", "degF"}, {"Pa", "hPa", "bar"}, {"m", "km", "feet"}, {"s", "min", "hours"}};

long days_from_civil(long y, unsigned m, unsigned d)
{
    y -= m <= 2;
    const long era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = unsigned(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + long(doe) - 719468;
}
bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

struct TU { const char* unit; double epoch, len; };
const TU tus[] = {{"hours since 2000-01-01 00:00:00", 946684800, 3600}, {"seconds since 1970-01-01 00:00:00", 0, 1}, {"days since 1990-01-01 00:00:00", 631152000, 86400},
                  {"minutes since 1980-01-06 00:00:00", 315964800, 60}, {"hours since 1979-12-31 12:00:00 +02:00", 315482400, 3600}};

struct UOp { int kind; int i, j, k; double v; int y, mo, d, h, mi, s, ms; };
UOp random_uop(Rng& r)
{
    UOp o;
    o.kind = r.range(0, 13);
    o.i = int(r.below(sizeof(lins) / sizeof(lins[0])));
    o.j = int(r.below(4));
    o.k = int(r.below(1000));
    o.v = double(long(r.below(200001)) - 100000) * 0.125;
    o.y = r.range(1950, 2099);
    o.mo = r.range(1, 12);
    o.d = r.range(1, 28);
    o.h = r.range(0, 23);
    o.mi = r.range(0, 59);
    o.s = r.range(0, 59);
    o.ms = r.chance(1, 2) ? r.range(0, 999) : 0;
    return o;
}
std::string run_uop(const UOp& o)
{
    std::ostringstream e;
    e.precision(15);
    const Lin& l = lins[o.i];
    try {
        switch (o.kind) {
        case 0: {
            Units u;
            double got = u.getConverter(l.a, l.b)->convert(o.v), want = l.scale * o.v + l.offset;
            if (!near(got, want)) e << o.v << " " << l.a << " converts to " << got << " " << l.b << " instead of " << want;
            note_outcome(&got, sizeof got);
            break;
        }
        case 1: {
            Units u;
            double s, f;
            u.convert(l.a, l.b, s, f);
            if (std::fabs(s - l.scale) > 1e-9 * std::fabs(l.scale) || std::fabs(f - l.offset) > 1e-6 * std::max(1.0, std::fabs(l.offset))) e << "slope/offset of " << l.a << " to " << l.b << " is " << s << "/" << f;
            break;
        }
        case 2: {
            Units u;
            int g1 = o.j, g2 = o.k % 4;
            const char *a = groups[g1][o.k % 3], *b = groups[g2][o.i % 3];
            if (u.areConvertible(a, b) != (g1 == g2)) e << "convertibility of " << a << " and " << b << " is reported wrongly";
            break;
        }
        case 3: { // an unusable unit is reported, to this caller only
            Units u;
            const char* b = bad_units[o.k % 6];
            bool threw = false;
            try {
                u.getConverter(b, "degF")->convert(1.0);
            } catch (UnitException&) {
                threw = true;
            }
            if (!threw) e << "unit '" << b << "' is accepted as convertible to degF";
            break;
        }
        case 4: { // units of different dimension
            Units u;
            bool threw = false;
            try {
                u.getConverter(groups[o.j][0], groups[(o.j + 1) % 4][1])->convert(1.0);
            } catch (UnitException&) {
                threw = true;
            }
            if (!threw) e << "incompatible units are converted";
            break;
        }
        case 5: {
            const TU& w = tus[o.k % 5];
            TimeUnit tu(w.unit);
            const double want = (double(days_from_civil(o.y, o.mo, o.d)) * 86400 + o.h * 3600 + o.mi * 60 + o.s + o.ms * 0.001 - w.epoch) / w.len;
            const double got = tu.fimexTime2unitTime(FimexTime(o.y, o.mo, o.d, o.h, o.mi, o.s, o.ms));
            if (std::fabs(got - want) * w.len > 1e-4) e << "calendar time converts to " << got << " " << w.unit << " instead of " << want;
            note_outcome(&got, sizeof got);
            break;
        }
        case 6: {
            const TU& w = tus[o.k % 5];
            TimeUnit tu(w.unit);
            const int ms = o.ms / 2 + 250; // not on the border of a second
            const double sec = double(days_from_civil(o.y, o.mo, o.d)) * 86400 + o.h * 3600 + o.mi * 60 + o.s + ms * 0.001;
            FimexTime t = tu.unitTime2fimexTime((sec - w.epoch) / w.len);
            if (t.getYear() != o.y || t.getMonth() != o.mo || t.getMDay() != o.d || t.getHour() != o.h || t.getMinute() != o.mi || t.getSecond() != o.s || std::abs(int(t.getMSecond()) - ms) > 1)
                e << "time value in " << w.unit << " converts to " << t << " ms " << t.getMSecond() << " instead of " << FimexTime(o.y, o.mo, o.d, o.h, o.mi, o.s) << " ms " << ms;
            break;
        }
        case 7: {
            TimeUnit tu(o.k % 2 ? "hours since 2000-01-01 00:00:00" : "minutes since 1980-01-06 00:00:00");
            double x = double(o.k);
            double want = o.k % 2 ? x * 3600 + 946684800.0 : x * 60 + 315964800.0;
            if (std::fabs(tu.unitTime2epochSeconds(x) - want) > 1e-3) e << "epoch seconds are " << tu.unitTime2epochSeconds(x) << " instead of " << want;
            if (std::fabs(tu.epochSeconds2unitTime(want) - x) > 1e-6) e << "time from epoch is wrong";
            break;
        }
        case 9: { // points in time, calendar time, text
            const long sec = days_from_civil(o.y, o.mo, o.d) * 86400 + o.h * 3600 + o.mi * 60 + o.s;
            FimexTime t = fromTimePoint(make_time_from_timet(sec)), want(o.y, o.mo, o.d, o.h, o.mi, o.s);
            if (!(t == want)) e << "point in time becomes " << t << " instead of " << want;
            if (fimexTime2epochTime(want) != sec) e << "epoch seconds of " << want << " are " << fimexTime2epochTime(want);
            break;
        }
        case 10: {
            char w[40];
            snprintf(w, sizeof w, "%04d-%02d-%02dT%02d:%02d:%02d", o.y, o.mo, o.d, o.h, o.mi, o.s);
            const time_point tp = make_time_point(o.y, o.mo, o.d, o.h, o.mi, o.s);
            std::string s = make_time_string_extended(tp);
            if (s != w) e << "time " << w << " is written as " << s;
            if (!(make_time_from_string(w) == tp)) e << "time " << w << " is read wrongly";
            break;
        }
        case 11: { // time in an attribute template, current time
            const long sec = days_from_civil(o.y, o.mo, o.d) * 86400 + o.h * 3600 + o.mi * 60 + o.s;
            ReplaceStringTimeObject rs(sec - 60);
            rs.setFormatStringAndOptions("%Y/%m/%d %H:%M:%S", {"60"});
            std::ostringstream s;
            s << rs;
            char w[40];
            snprintf(w, sizeof w, "%04d/%02d/%02d %02d:%02d:%02d", o.y, o.mo, o.d, o.h, o.mi, o.s);
            if (s.str() != w) e << "time " << w << " is put into a template as " << s.str();
            const long t0 = long(time(nullptr)), now = timePoint2epochTime(make_time_utc_now()), t1 = long(time(nullptr));
            if (now < t0 || now > t1) e << "the current time is " << now << " instead of " << t0;
            break;
        }
        case 12: { // not linear: has no slope and offset
            Units u;
            const bool back = o.k % 2;
            UnitsConverter_p c = back ? u.getConverter("W", "lg(re 1 mW)") : u.getConverter("lg(re 1 mW)", "W");
            if (c->isLinear()) e << "a logarithmic unit is reported to be linear";
            const double v = back ? 0.001 * std::pow(10.0, o.k % 7 - 3) : o.k % 7 - 3, want = back ? double(o.k % 7 - 3) : 0.001 * std::pow(10.0, o.k % 7 - 3), got = c->convert(v);
            if (std::fabs(got - want) > 1e-6 * std::max(std::fabs(want), back ? 1.0 : 0.0)) e << v << " converts to " << got << " instead of " << want;
            bool threw = false;
            try {
                double s, f;
                if (o.k % 3) c->getScaleOffset(s, f);
                else if (back) u.convert("W", "lg(re 1 mW)", s, f);
                else u.convert("lg(re 1 mW)", "W", s, f);
            } catch (UnitException&) {
                threw = true;
            }
            if (!threw) e << "slope and offset of a logarithmic unit are delivered";
            break;
        }
        case 13: {
            Units u;
            UnitsConverter_p c = u.getConverter(l.a, l.b);
            if (!c->isLinear()) e << l.a << " to " << l.b << " is reported not to be linear";
            const bool time = std::string(l.a).find("since") != std::string::npos;
            if (u.isTime(l.a) != time) e << l.a << (time ? " is reported not to be a time" : " is reported to be a time");
            const float got = c->convert(float(o.v));
            const double want = l.scale * o.v + l.offset;
            if (std::fabs(got - want) > 1e-6 * std::max(std::fabs(want), std::max(std::fabs(l.offset), std::fabs(l.scale * o.v)))) e << "float " << o.v << " " << l.a << " converts to " << got << " " << l.b << " instead of " << want;
            break;
        }
        default: { // not linear
            Units u;
            double v = double(o.k % 7) - 3;
            double got = u.getConverter("lg(re 1 mW)", "W")->convert(v), want = 0.001 * std::pow(10.0, v);
            if (std::fabs(got - want) > 1e-6 * want) e << v << " lg(re 1 mW) converts to " << got << " W instead of " << want;
            break;
        }
        }
    } catch (std::exception& ex) {
        e << "operation " << o.kind << " failed: " << ex.what();
    } catch (...) {
        e << "operation " << o.kind << " failed";
    }
    return e.str();
}
} // namespace

SIM_SCENARIO(S05, mixed, 3)
{
    const int nt = rng.range(2, 4);
    std::vector<UOp> ops[4];
    for (int t = 0; t < nt; t++)
        for (int k = rng.range(1, 6); k > 0; k--) ops[t].push_back(random_uop(rng));
    const bool first = rng.chance(1, 2);
    if (!first) { Quiet q; Units u; u.areConvertible("m", "km"); }
    sample("%d threads, unit system %s", nt, first ? "loaded by the first user" : "already loaded");
    for (int t = 0; t < nt; t++)
        spawn([&, t] {
            for (auto& o : ops[t]) {
                std::string e = run_uop(o);
                if (!e.empty()) violation("wrong-conversion", "thread %d: %s", t, e.c_str());
            }
        });
    join_all();
}
// one converter object shared by threads
SIM_SCENARIO(S05, shared_converter, 1)
{
    const int nt = rng.range(2, 4), li = int(rng.below(sizeof(lins) / sizeof(lins[0])));
    const bool log = rng.chance(1, 3);
    Units u;
    UnitsConverter_p c = log ? u.getConverter("lg(re 1 mW)", "W") : u.getConverter(lins[li].a, lins[li].b);
    TimeUnit tu("hours since 2000-01-01 00:00:00");
    sample("%d threads share a converter", nt);
    for (int t = 0; t < nt; t++) {
        int n = rng.range(1, 4);
        double v0 = double(rng.range(-50, 50));
        spawn([&, t, n, v0, c]() mutable {
            for (int k = 0; k < n; k++) {
                double v = log ? double(k) : v0 + k, got = c->convert(v), want = log ? 0.001 * std::pow(10.0, v) : lins[li].scale * v + lins[li].offset;
                if (std::fabs(got - want) > 1e-7 * std::max(1.0, std::fabs(want))) violation("wrong-conversion", "thread %d: %g converts to %.12g instead of %.12g", t, v, got, want);
                float gf = c->convert(float(v));
                if (std::fabs(gf - want) > 1e-4 * std::max(1.0, std::fabs(want))) violation("wrong-conversion", "thread %d: float %g converts to %.9g instead of %.9g", t, v, gf, want);
                FimexTime ft = tu.unitTime2fimexTime(24.0 * 366 + 5);
                if (ft.getYear() != 2001 || ft.getMonth() != 1 || ft.getMDay() != 1 || ft.getHour() != 5) violation("wrong-conversion", "thread %d: wrong calendar time", t);
            }
            c.reset();
        });
    }
    c.reset();
    join_all();
}

// ---------- logging ----------
namespace {
// output sink with a schedule point at every access
struct Sink : std::streambuf
{
    std::string text;
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        yield_point(5);
        text.append(s, n);
        yield_point(5);
        return n;
    }
    int overflow(int c) override
    {
        yield_point(5);
        if (c != EOF) text += char(c);
        return c;
    }
    int sync() override
    {
        yield_point(5);
        return 0;
    }
};
struct Msg { int level; std::string text; int logger; };
const Logger::LogLevel levels[] = {Logger::FATAL, Logger::ERROR, Logger::WARN, Logger::INFO, Logger::DEBUG};

// user-supplied logger class: remembers what it was given
struct RecClass : LoggerClass
{
    struct Rec { std::string cls, msg; int level; };
    std::vector<Rec>* out;
    int* alive;
    Logger::LogLevel min;
    RecClass(std::vector<Rec>* o, int* a, Logger::LogLevel m) : out(o), alive(a), min(m) { ++*alive; }
    ~RecClass() { reset(); --*alive; }
    struct Impl : LoggerImpl
    {
        RecClass* c;
        std::string name;
        int* alive;
        Impl(RecClass* c, const std::string& n) : c(c), name(n), alive(c->alive) { ++*alive; }
        ~Impl() { --*alive; }
        bool isEnabledFor(Logger::LogLevel l) override { return l >= c->min; }
        void log(Logger::LogLevel l, const std::string& m, const char*, unsigned) override
        {
            yield_point(5);
            c->out->push_back({name, m, int(l)});
        }
    };
    LoggerImpl* loggerFor(Logger* l, const std::string& n) override
    {
        remember(l);
        yield_point(5);
        return new Impl(this, n);
    }
};
void count_lines(const std::string& text, const std::vector<Msg>& all, Logger::LogLevel min, const char* where)
{
    std::map<std::string, int> want, got;
    for (auto& m : all)
        if (levels[m.level] >= min) want[m.text]++;
    std::istringstream in(text);
    for (std::string l; std::getline(in, l);) {
        size_t a = l.find("<m"), b = l.find("/>");
        if (l.empty()) violation("log-damaged", "%s: empty line", where);
        if (a == std::string::npos || b == std::string::npos || l.find("<m", a + 1) != std::string::npos || l.find("/>", b + 1) != std::string::npos) violation("log-damaged", "%s: damaged line '%s'", where, l.c_str());
        if (l.find(" in ", b) == std::string::npos || l.find(" at line ", b) == std::string::npos) violation("log-damaged", "%s: line without position '%s'", where, l.c_str());
        got[l.substr(a, b - a + 2)]++;
    }
    // each thread's messages are in its order
    std::map<std::string, std::vector<size_t>> order; // thread -> positions in sending order
    for (auto& m : all)
        if (levels[m.level] >= min && text.find(m.text) != std::string::npos) order[m.text.substr(0, m.text.find('_'))].push_back(text.find(m.text));
    for (auto& o : order)
        if (!std::is_sorted(o.second.begin(), o.second.end())) violation("log-order", "%s: messages of thread %s are not in its order", where, o.first.c_str());
    for (auto& w : want)
        if (got[w.first] != w.second) violation("log-lost", "%s: message %s appears %d times instead of %d", where, w.first.c_str(), got[w.first], w.second);
    for (auto& g : got)
        if (g.second && !want.count(g.first)) violation("log-extra", "%s: unexpected message %s", where, g.first.c_str());
}
} // namespace

SIM_SCENARIO(S15, messages, 3)
{
    const int nt = rng.range(2, 4), nl = rng.range(1, 3), kind = rng.range(0, 2), minl = rng.range(1, 3);
    const bool preset = rng.chance(1, 2);
    defaultLogLevel(levels[minl]);
    std::vector<RecClass::Rec> recs;
    int alive = 0;
    static const char* const kn[] = {"log4cpp", "stderr", "user-supplied"};
    sample("%d threads log to %d loggers of class %s, set %s", nt, nl, kn[kind], preset || kind ? "before" : "by the first message");
    Sink sink;
    std::streambuf *oc = std::cout.rdbuf(&sink), *oe = std::cerr.rdbuf(&sink);
    if (kind == 2) Logger::setClass(new RecClass(&recs, &alive, levels[minl]));
    else if (kind == 1) Logger::setClass(Logger::LOG2STDERR);
    else if (preset) Logger::setClass(Logger::LOG4CPP);
    std::vector<Logger_p> lg;
    for (int i = 0; i < nl; i++) lg.push_back(getLogger("fimex.sim" + std::to_string(i)));
    std::vector<Msg> plans[4], all;
    for (int t = 0; t < nt; t++)
        for (int k = rng.range(1, 4); k > 0; k--) {
            Msg m{rng.range(0, 4), "<m" + std::to_string(t) + "_" + std::to_string(k) + std::string(rng.range(0, 60), 'x') + "/>", int(rng.below(nl))};
            plans[t].push_back(m);
            all.push_back(m);
        }
    for (int t = 0; t < nt; t++)
        spawn([&, t] {
            Outcome o = attempt([&] {
                for (auto& m : plans[t]) LOG4FIMEX(lg[m.logger], levels[m.level], m.text);
            });
            if (o.threw) violation("log-error", "logging failed: %s", o.what.c_str());
        });
    join_all();
    std::cout.rdbuf(oc);
    std::cerr.rdbuf(oe);
    if (kind == 2) {
        std::map<std::string, int> want;
        for (auto& m : all) if (levels[m.level] >= levels[minl]) want["fimex.sim" + std::to_string(m.logger) + " " + m.text + std::to_string(int(levels[m.level]))]++;
        for (auto& r : recs)
            if (--want[r.cls + " " + r.msg + std::to_string(r.level)] < 0) violation("log-extra", "message %s of %s was not sent or arrived twice", r.msg.c_str(), r.cls.c_str());
        for (auto& w : want) if (w.second) violation("log-lost", "message %s is lost", w.first.c_str());
    } else {
        count_lines(sink.text, all, kind == 0 ? std::min(levels[minl], Logger::INFO) : levels[minl], kn[kind]); // log4cpp: never less than its own default
        note_outcome(sink.text);
    }
    lg.clear();
    Logger::setClass(static_cast<LoggerClass*>(nullptr));
    if (alive) violation("log-leak", "%d logger objects are left after the logger class was removed", alive);
}
// loggers created and destroyed while others log
SIM_SCENARIO(S15, churn, 2)
{
    const int nt = rng.range(2, 4), kind = rng.range(0, 2);
    std::vector<RecClass::Rec> recs;
    int alive = 0;
    Sink sink;
    std::streambuf *oc = std::cout.rdbuf(&sink), *oe = std::cerr.rdbuf(&sink);
    defaultLogLevel(Logger::WARN);
    if (kind == 2) Logger::setClass(new RecClass(&recs, &alive, Logger::WARN));
    else if (kind == 1) Logger::setClass(Logger::LOG2STDERR);
    sample("%d threads create, use and drop loggers", nt);
    std::vector<Msg> all;
    int n[4];
    for (int t = 0; t < nt; t++) {
        n[t] = rng.range(1, 3);
        for (int k = 0; k < n[t]; k++) all.push_back({2, "<m" + std::to_string(t) + "_" + std::to_string(k) + "/>", 0});
    }
    for (int t = 0; t < nt; t++)
        spawn([&, t] {
            Outcome o = attempt([&] {
                for (int k = 0; k < n[t]; k++) {
                    Logger_p l = getLogger(k % 2 ? "fimex.churn" : "fimex.other" + std::to_string(t));
                    LOG4FIMEX(l, Logger::DEBUG, "<mhidden/>");
                    LOG4FIMEX(l, Logger::WARN, "<m" << t << "_" << k << "/>");
                }
            });
            if (o.threw) violation("log-error", "logging failed: %s", o.what.c_str());
        });
    join_all();
    std::cout.rdbuf(oc);
    std::cerr.rdbuf(oe);
    if (kind == 2) {
        if (recs.size() != all.size()) violation("log-lost", "%zu messages arrived instead of %zu", recs.size(), all.size());
    } else count_lines(sink.text, all, Logger::WARN, "churn");
    Logger::setClass(static_cast<LoggerClass*>(nullptr));
    if (alive) violation("log-leak", "%d logger objects are left after the logger class was removed", alive);
}

#include "mix.h"
hs::MixJob hs::mix_units(Rng& rng, const std::string&)
{
    std::vector<UOp> ops;
    for (int k = rng.range(1, 5); k > 0; k--) ops.push_back(random_uop(rng));
    return {"units", [ops] {
                for (auto& o : ops) {
                    std::string e = run_uop(o);
                    if (e.find("bad_alloc") != std::string::npos || e.find("failed") != std::string::npos) throw CDMException(e);
                    if (!e.empty()) violation("wrong-conversion", "%s", e.c_str());
                }
            }};
}
