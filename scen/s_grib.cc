// GRIB: readers on files, indices and remote objects; index creation; GRIB, NcML and index output.
#include <deque>
#include "view.h"
#include <sys/stat.h>
#include "grib_api.h"
#include "tools.h"

#include "GribFileIndex.h"
#include "fimex/ChunkReaderFactory.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace hs;
using namespace sim;

namespace sim { const std::string& chosen_property(); }

namespace {
// ---------- bank of messages, made once per process with the bare ecCodes library ----------
const int NL = 3, NT = 4, NE = 3, NV = 2;
const long LEVELS[NL] = {500, 700, 850};
const long STEPS[NT] = {0, 3, 6, 48}; // hours
const long STEP_UNIT[NT] = {1, 0, 1, 2}, STEP_NO[NT] = {0, 180, 6, 2}; // as coded: hours, minutes, days
const int ENS_TOTAL[2] = {NE, NE - 1}; // members of t and u
const long long REF = 1577836800; // 2020-01-01
const double MISS = 9999;
struct Msg
{
    int p = 0, l = 0, t = 0, e = -1, v = 0;
    std::string bytes;
    std::vector<double> val; // missing as MISS
};
// parameters: 0 float on grid A, 1 short packed on grid A, 2 double with missing values on grid B, 3 float without time
struct Par { const char* name; long iop, num, cat, dis; int nx, ny; bool miss, consttime; CDMDataType type; double scale, offset; bool has_precision; double fill; const char* units; };
const int NP = 7;
// grids: A upwards, B downwards on latitude/longitude, C rotated, D polar stereographic
const double POLE_LAT = -31.5, POLE_LON = 11.5, ORIENT = 12, D_LAT = 62, D_LON = 27, D_STEP = 15000, D_TS = 60;
const Par PAR[NP] = {
    {"t", 130, 0, 0, 0, 5, 4, false, false, CDM_FLOAT, 1, 0, false, -32767, "K"},
    {"u", 131, 2, 2, 0, 5, 4, true, false, CDM_SHORT, 0.5, 3, true, -32767, "m/s"},
    {"q", 133, 0, 1, 0, 3, 6, true, false, CDM_DOUBLE, 1, 0, false, -1e10, "m"},
    {"z", 156, 5, 3, 0, 3, 6, false, true, CDM_FLOAT, 1, 0, false, -32767, "m"},
    {"w", 135, 8, 2, 0, 4, 5, true, false, CDM_FLOAT, 1, 0, false, -32767, "m/s"},
    {"r", 157, 1, 1, 0, 6, 3, false, false, CDM_DOUBLE, 1, 0, false, -32767, "1"},
    {"c", 246, 22, 1, 0, 5, 4, false, false, CDM_FLOAT, 1, 0, false, -32767, "1"}, // on hybrid levels
};
const int NHALF = 5;
const long HYBRID[NL] = {1, 2, 4};
const double HALF[2][NHALF] = {{0, 2000, 7000, 4000, 0}, {0, 0.125, 0.375, 0.75, 1}};
std::vector<Msg> bank[3]; // by edition 1, 2
int bank_pos[3][NP][NL][NT][NE + 1][NV];

void die(const char* w) { fprintf(stderr, "fixture: %s\n", w); abort(); }
void gl(grib_handle* h, const char* k, long v) { if (grib_set_long(h, k, v)) die(k); }
void gd(grib_handle* h, const char* k, double v) { if (grib_set_double(h, k, v)) die(k); }
void make_bank()
{
    if (!bank[1].empty()) return;
    for (int ed = 1; ed <= 2; ed++) {
        grib_handle* base = grib_handle_new_from_samples(0, ed == 1 ? "GRIB1" : "GRIB2");
        if (!base) die("samples");
        if (ed == 1) gl(base, "deleteLocalDefinition", 1);
        for (int p = 0; p < NP; p++)
            for (int l = 0; l < NL; l++)
                for (int t = 0; t < (PAR[p].consttime ? 1 : NT); t++)
                    for (int e = -1; e < (ed == 2 && p < 2 ? ENS_TOTAL[p] : 0); e++)
                        for (int v = 0; v < NV; v++) {
                            const Par& q = PAR[p];
                            grib_handle* h = grib_handle_clone(base);
                            if (p == 4 || p == 5) {
                                const char* g = p == 4 ? "rotated_ll" : "polar_stereographic";
                                size_t n = strlen(g);
                                if (grib_set_string(h, "typeOfGrid", g, &n)) die("typeOfGrid");
                            }
                            gl(h, p == 5 ? "Nx" : "Ni", q.nx);
                            gl(h, p == 5 ? "Ny" : "Nj", q.ny);
                            const bool down = p == 2 || p == 3; // grid B starts at the top
                            if (p == 5) {
                                gd(h, "latitudeOfFirstGridPointInDegrees", D_LAT);
                                gd(h, "longitudeOfFirstGridPointInDegrees", D_LON);
                                gd(h, "orientationOfTheGridInDegrees", ORIENT);
                                gl(h, "DxInMetres", long(D_STEP));
                                gl(h, "DyInMetres", long(D_STEP));
                                if (ed == 2) gd(h, "latitudeWhereDxAndDyAreSpecifiedInDegrees", D_TS);
                            } else {
                            gd(h, "longitudeOfFirstGridPointInDegrees", 2);
                            if (p == 4) gd(h, "latitudeOfSouthernPoleInDegrees", POLE_LAT), gd(h, "longitudeOfSouthernPoleInDegrees", POLE_LON), gl(h, "ijDirectionIncrementGiven", 1);
                            gd(h, "latitudeOfFirstGridPointInDegrees", 60);
                            gd(h, "longitudeOfLastGridPointInDegrees", 2 + 0.5 * (q.nx - 1));
                            gd(h, "latitudeOfLastGridPointInDegrees", 60 + (down ? -0.25 : 0.25) * (q.ny - 1));
                            gd(h, "iDirectionIncrementInDegrees", 0.5);
                            gd(h, "jDirectionIncrementInDegrees", 0.25);
                            }
                            gl(h, "jScansPositively", !down);
                            if (ed == 2) gl(h, "shapeOfTheEarth", 6);
                            gl(h, "dataDate", 20200101);
                            gl(h, "dataTime", 0);
                            if (ed == 1) {
                                gl(h, "indicatorOfParameter", q.iop);
                                gl(h, "indicatorOfTypeOfLevel", p == 6 ? 109 : 100);
                            } else {
                                if (e >= 0) {
                                    gl(h, "productDefinitionTemplateNumber", 1);
                                    gl(h, "numberOfForecastsInEnsemble", ENS_TOTAL[p]);
                                    gl(h, "perturbationNumber", e);
                                } else
                                    gl(h, "productDefinitionTemplateNumber", 0);
                                gl(h, "discipline", q.dis);
                                gl(h, "parameterCategory", q.cat);
                                gl(h, "parameterNumber", q.num);
                                gl(h, "typeOfFirstFixedSurface", p == 6 ? 105 : 100);
                                gl(h, "typeOfSecondFixedSurface", 255);
                            }
                            gl(h, "level", p == 6 ? HYBRID[l] : LEVELS[l]);
                            if (p == 6) {
                                gl(h, "PVPresent", 1);
                                if (grib_set_double_array(h, "pv", HALF[0], 2 * NHALF)) die("pv");
                            }
                            if (ed == 1) gl(h, "unitOfTimeRange", STEP_UNIT[t]), gl(h, "P1", STEP_NO[t]);
                            else gl(h, "indicatorOfUnitOfTimeRange", STEP_UNIT[t]), gl(h, "forecastTime", STEP_NO[t]);
                            gl(h, "decimalPrecision", 0);
                            Msg m;
                            m.p = p, m.l = l, m.t = t, m.e = e, m.v = v;
                            std::vector<double> x(q.nx * q.ny);
                            for (size_t i = 0; i < x.size(); i++)
                                x[i] = 20 + 3 * p + l * 117 + t * 1113 + (e + 1) * 2001 + v * 7 + double((i * 7919 + l * 31 + t * 17 + p) % 97);
                            if (q.miss && (l + t) % 2) {
                                gl(h, "bitmapPresent", 1);
                                gd(h, "missingValue", MISS);
                                for (size_t i = 0; i < x.size(); i++)
                                    if ((i + t + v) % 5 == 0) x[i] = MISS;
                            }
                            if (grib_set_double_array(h, "values", x.data(), x.size())) die("values");
                            const void* b;
                            size_t n;
                            if (grib_get_message(h, &b, &n)) die("message");
                            m.bytes.assign((const char*)b, n);
                            grib_handle* h2 = grib_handle_new_from_message_copy(0, m.bytes.data(), n);
                            gd(h2, "missingValue", MISS);
                            m.val.resize(x.size());
                            size_t k = x.size();
                            if (grib_get_double_array(h2, "values", m.val.data(), &k) || k != x.size()) die("decode");
                            grib_handle_delete(h2);
                            grib_handle_delete(h);
                            bank_pos[ed][p][l][t][e + 1][v] = int(bank[ed].size());
                            bank[ed].push_back(m);
                        }
        grib_handle_delete(base);
    }
}
// load the definitions the reader needs, so that runs do not each parse them
void warm_up()
{
    for (int ed = 1; ed <= 2; ed++)
        for (size_t i = 0; i < bank[ed].size(); i += 7) {
            grib_handle* h = grib_handle_new_from_message_copy(0, bank[ed][i].bytes.data(), bank[ed][i].bytes.size());
            for (const char* k : {"name", "shortName", "levtype", "typeOfFirstFixedSurface", "level", "indicatorOfUnitOfTimeRange", "stepUnits", "stepType", "dataDate", "time", "timeRangeIndicator",
                                  "typeOfStatisticalProcessing", "startStep", "endStep", "numberOfForecastsInEnsemble", "perturbationNumber", "totalNumberOfClusters", "typeOfGrid", "centre", "gribTablesVersionNo",
                                  "shapeOfTheEarth", "earthIsOblate", "radiusInMetres", "ijDirectionIncrementGiven", "PVPresent", "missingValue", "iScansNegatively", "jScansPositively"}) {
                char b[1024];
                size_t n = sizeof b;
                grib_get_string(h, k, b, &n);
                long l;
                grib_get_long(h, k, &l);
                double d;
                grib_get_double(h, k, &d);
            }
            grib_handle_delete(h);
        }
}
const Msg& msg(int ed, int p, int l, int t, int e, int v) { return bank[ed][bank_pos[ed][p][l][t][e + 1][v]]; }

std::string config_xml(const std::string& earth)
{
    std::ostringstream o;
    o << "<?xml version=\"1.0\"?>\n<cdmGribReaderConfig xmlns=\"http://www.met.no/schema/fimex/cdmGribReaderConfig\">";
    if (!earth.empty()) o << "<overrule><earthFigure proj4=\"" << earth << "\"/></overrule>";
    o << "<processOptions><option name=\"selectParameters\" value=\"definedOnly\"/></processOptions>"
      << "<global_attributes><attribute name=\"Conventions\" type=\"string\" value=\"CF-1.0\"/></global_attributes><axes>"
      << "<time id=\"time\" name=\"time\" type=\"double\"><attribute name=\"units\" type=\"string\" value=\"seconds since 1970-01-01 00:00:00 +00:00\"/></time>"
      << "<spatial_axis typeOfGrid=\"regular_ll\" id=\"x\" name=\"longitude\" type=\"float\"><attribute name=\"units\" type=\"string\" value=\"degrees_east\"/></spatial_axis>"
      << "<spatial_axis typeOfGrid=\"regular_ll\" id=\"y\" name=\"latitude\" type=\"float\"><attribute name=\"units\" type=\"string\" value=\"degrees_north\"/></spatial_axis>"
      << "<spatial_axis typeOfGrid=\"rotated_ll\" id=\"x\" name=\"rlon\" type=\"float\"><attribute name=\"units\" type=\"string\" value=\"degrees\"/></spatial_axis>"
      << "<spatial_axis typeOfGrid=\"rotated_ll\" id=\"y\" name=\"rlat\" type=\"float\"><attribute name=\"units\" type=\"string\" value=\"degrees\"/></spatial_axis>"
      << "<spatial_axis typeOfGrid=\"polar_stereographic\" id=\"x\" name=\"x\" type=\"double\"><attribute name=\"units\" type=\"string\" value=\"m\"/></spatial_axis>"
      << "<spatial_axis typeOfGrid=\"polar_stereographic\" id=\"y\" name=\"y\" type=\"double\"><attribute name=\"units\" type=\"string\" value=\"m\"/></spatial_axis>"
      << "<spatial_axis id=\"longitude\" name=\"longitude\"/><spatial_axis id=\"latitude\" name=\"latitude\"/>"
      << "<vertical_axis id=\"pressure\" name=\"pressure\" grib1_id=\"100\" grib2_id=\"100\" type=\"float\"><attribute name=\"units\" type=\"string\" value=\"hPa\"/></vertical_axis>"
      << "<vertical_axis id=\"hybrid\" name=\"k\" grib1_id=\"109\" grib2_id=\"105\" type=\"double\"><attribute name=\"standard_name\" value=\"atmosphere_hybrid_sigma_pressure_coordinate\" type=\"string\"/><values mode=\"hybridSigmaCalc(ap,b,p0)\"/>"
      << "<additional_axis_variable name=\"p0\" type=\"double\" axis=\"\"><values>100000</values></additional_axis_variable><additional_axis_variable name=\"ap\" type=\"double\" axis=\"k\"><values mode=\"extraHalvLevel1\" scale_factor=\"1\"/></additional_axis_variable>"
      << "<additional_axis_variable name=\"b\" type=\"double\" axis=\"k\"><values mode=\"extraHalvLevel2\" scale_factor=\"1\"/></additional_axis_variable></vertical_axis>"
      << "</axes><variables>";
    for (auto& q : PAR) {
        const char* ty = q.type == CDM_FLOAT ? "float" : q.type == CDM_SHORT ? "short" : "double";
        o << "<parameter name=\"" << q.name << "\" type=\"" << ty << "\"" << (q.consttime ? " constantTime=\"true\"" : "") << ">"
          << "<grib1 indicatorOfParameter=\"" << q.iop << "\"/><grib2 parameterNumber=\"" << q.num << "\" parameterCategory=\"" << q.cat << "\" discipline=\"" << q.dis << "\"/>"
          << "<attribute name=\"units\" type=\"string\" value=\"" << q.units << "\"/>"
          << "<attribute name=\"_FillValue\" type=\"" << ty << "\" value=\"" << q.fill << "\"/>";
        if (q.has_precision) o << "<precision scale_factor=\"" << q.scale << "\" add_offset=\"" << q.offset << "\"/>";
        o << "</parameter>";
    }
    o << "</variables></cdmGribReaderConfig>";
    return o.str();
}

// ---------- one dataset: messages distributed on files ----------
struct GFile { std::string name; std::vector<const Msg*> msgs; std::string bytes() const { std::string s; for (auto* m : msgs) s += m->bytes; return s; } };
struct GData
{
    int ed = 1;
    std::vector<GFile> files;
    bool http = false, scattered = false; // scattered: in several directories
    std::string pattern, root;            // of the names, if not in the scratch directory
    std::vector<std::string> members; // arguments that tell the ensemble member by the name of the file
    std::vector<int> member;          // of each file
    int ne = 0;
};
std::deque<Msg> member_msgs; // messages of files which are ensemble members

GData random_grib(Rng& r, const std::string& prefix, bool allow_http, int maxfiles, bool members = true)
{
    GData d;
    d.ed = r.range(1, 2);
    d.http = allow_http && r.chance(1, 3);
    std::vector<const Msg*> all;
    bool any = false, any_ens = false;
    const bool small = r.chance(3, 4);
    const bool grids = r.chance(1, 3);
    for (int p = 0; p < (grids ? NP : 4); p++) {
        if (p >= 4 && any && r.chance(1, 3)) continue;
        if (p == 3 || (p < 3 && r.chance(1, 4) && !(p == 2 && !any))) {
            if (p != 3 || !any || !r.chance(1, 4)) continue;
        }
        any = true;
        const bool ens = d.ed == 2 && p < 2 && r.chance(1, 2);
        if (ens) any_ens = true;
        const int drop = r.chance(1, 2) ? 0 : r.range(1, 4); // out of 10
        const int lmask = r.chance(2, 3) ? 7 : r.range(1, 7), tmask = r.chance(1, 2) ? 15 : r.range(1, 15);
        for (int t = 0; t < (PAR[p].consttime ? 1 : NT); t++)
            for (int l = 0; l < NL; l++)
                for (int e = ens ? 0 : -1; e < (ens ? ENS_TOTAL[p] : 0); e++) {
                    if (!(lmask >> l & 1) || (!PAR[p].consttime && !(tmask >> t & 1))) continue;
                    if (r.chance(drop, 10)) continue;
                    all.push_back(&msg(d.ed, p, l, t, e, 0));
                    if (r.chance(1, 20)) all.push_back(&msg(d.ed, p, l, t, e, 1)); // a newer version
                }
    }
    if (all.empty()) all.push_back(&msg(d.ed, 0, 0, 0, -1, 0));
    if (r.chance(1, 2))
        for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below(i)]);
    if (small && all.size() > 3) {
        size_t k = size_t(r.range(2, 9));
        while (all.size() > k) all.erase(all.begin() + r.below(all.size()));
    }
    const int nf = r.range(1, maxfiles);
    for (int f = 0; f < nf; f++) {
        GFile g;
        g.name = (d.http ? "http://server.example/" : scratch) + prefix + std::to_string(f) + ".grib";
        d.files.push_back(g);
    }
    for (auto* m : all) d.files[r.below(nf)].msgs.push_back(m);
    for (size_t f = 0; f < d.files.size();)
        if (d.files[f].msgs.empty()) d.files.erase(d.files.begin() + f);
        else f++;
    if (members && !any_ens && r.chance(1, 4)) { // file names tell the ensemble members
        for (size_t f = 0; f < d.files.size(); f++) {
            const std::string key = prefix + std::to_string(d.files[f].name[d.files[f].name.size() - 6] - '0');
            if (r.chance(1, 3)) d.members.push_back("memberRegex:.*/" + key), d.ne++; // matches no complete name
            if (r.chance(1, 2)) d.members.push_back("memberName:" + key + ".grib" + (r.chance(1, 2) ? ":m" + key : ""));
            else d.members.push_back("memberRegex:.*/" + key + "[.]grib:n" + key);
            d.member.push_back(d.ne++);
            for (auto& m : d.files[f].msgs) {
                member_msgs.push_back(*m);
                member_msgs.back().e = d.member.back();
                m = &member_msgs.back();
            }
        }
        if (d.ne < 2) d.members.push_back("memberName:nofile"), d.ne++;
    } else if (r.chance(1, 3)) { // names that are alike
        const bool dirs = r.chance(2, 3), one = r.chance(1, 3);
        for (size_t f = 0; f < d.files.size(); f++) {
            const std::string base = d.http ? "http://server.example/" : scratch;
            if (!dirs) d.files[f].name = base + prefix + std::string(f, 'x') + ".grib";
            else {
                const std::string dir = base + prefix + "d" + std::string(one ? 0 : f, 'd');
                if (!d.http) ::mkdir(dir.c_str(), 0700);
                d.files[f].name = dir + "/f" + std::string(one ? f : 0, 'x') + ".grib";
                d.pattern = base + prefix + "d*/f*.grib";
                if (one) d.root = dir;
                else if (f) d.scattered = true;
                else if (d.files.size() == 1) d.root = dir;
            }
        }
    }
    return d;
}
std::map<std::string, std::string>& served()
{
    static std::map<std::string, std::string> m;
    return m;
}
void put(const std::string& name, const std::string& bytes)
{
    if (name.compare(0, 5, "http:") == 0) {
        served()[name] = bytes;
        set_http_server([](const std::string& url, std::string& body) {
            auto it = served().find(url);
            if (it == served().end()) return false;
            body = it->second;
            return true;
        });
    } else
        write_file(name, bytes);
}
void store(const GData& d)
{
    for (auto& f : d.files) put(f.name, f.bytes());
}
// what a reader of these messages, loaded in this order, must show
View view_of_msgs(int ed, const std::vector<const Msg*>& ms, int members = 0, double radius = 0)
{
    static const char* const XN[4] = {"longitude", "longitude", "rlon", "x"};
    static const char* const YN[4] = {"latitude", "latitude", "rlat", "y"};
    auto grid_of = [](int p) { return p < 2 || p == 6 ? 0 : p < 4 ? 1 : p - 2; };
    if (radius <= 0) radius = ed == 1 ? 6367470 : 6371229;
    View v;
    size_t max_ens = members;
    v.unlim = "time";
    std::set<int> times;
    std::map<std::string, std::set<int>> levels; // by variable name
    std::map<std::string, int> pars;
    std::vector<int> gridorder; // nx of the grids in order of appearance
    std::map<std::string, bool> ens;
    for (auto* m : ms) {
        const Par& q = PAR[m->p];
        if (!q.consttime) times.insert(m->t);
        levels[q.name].insert(m->l);
        pars[q.name] = m->p;
        ens[q.name] = m->e >= 0;
        if (!members && m->e >= 0) max_ens = std::max(max_ens, size_t(ENS_TOTAL[m->p]));
        if (std::find(gridorder.begin(), gridorder.end(), q.nx) == gridorder.end()) gridorder.push_back(q.nx);
    }
    std::vector<std::set<int>> lsets;
    for (auto& l : levels)
        if (l.first != "c" && std::find(lsets.begin(), lsets.end(), l.second) == lsets.end()) lsets.push_back(l.second);
    std::vector<int> tpos(NT, -1);
    int nt = 0;
    for (int t : times) tpos[t] = nt++;
    for (auto& it : pars) {
        const Par& q = PAR[it.second];
        MVar w;
        w.name = q.name;
        w.type = q.type;
        const size_t gi = std::find(gridorder.begin(), gridorder.end(), q.nx) - gridorder.begin();
        const std::string ga = gi ? std::to_string(gi) : "";
        w.shape = {XN[grid_of(it.second)] + ga, YN[grid_of(it.second)] + ga};
        w.sizes = {size_t(q.nx), size_t(q.ny)};
        size_t ne = 1;
        if (ens[w.name]) {
            w.shape.push_back("ensemble_member");
            w.sizes.push_back(ne = max_ens);
        }
        const size_t li = std::find(lsets.begin(), lsets.end(), levels[w.name]) - lsets.begin();
        w.shape.push_back(it.second == 6 ? "hybrid" : "pressure" + (lsets.size() > 1 ? std::to_string(li) : ""));
        std::vector<int> lp(NL, -1);
        int nl = 0;
        for (int l : levels[w.name]) lp[l] = nl++;
        w.sizes.push_back(nl);
        if (!q.consttime) {
            w.shape.push_back("time");
            w.sizes.push_back(nt);
        }
        w.has_fill = true;
        w.fill = q.fill;
        w.units = q.units;
        if (q.has_precision) w.scale = q.scale, w.offset = q.offset;
        w.data.assign(w.count(), q.fill);
        const size_t xy = q.nx * q.ny;
        for (auto* m : ms) {
            if (m->p != it.second) continue;
            const size_t t = q.consttime ? 0 : tpos[m->t], e = m->e >= 0 ? m->e : 0;
            double* o = &w.data[((t * nl + lp[m->l]) * ne + e) * xy];
            for (size_t i = 0; i < xy; i++) o[i] = m->val[i] == MISS ? q.fill : q.has_precision ? std::round((m->val[i] - q.offset) / q.scale) : m->val[i];
        }
        v.vars.push_back(w);
    }
    const double D2R = M_PI / 180;
    for (size_t i = 0; i < gridorder.size(); i++) {
        int g = 0;
        for (int p = 0; p < NP; p++)
            if (PAR[p].nx == gridorder[i]) g = grid_of(p);
        const Par& q = PAR[g < 2 ? 2 * g : g + 2]; // of the grid
        const std::string ap = i ? std::to_string(i) : "";
        const double rho = radius * (1 + std::sin(D_TS * D2R)) * std::cos(D_LAT * D2R) / (1 + std::sin(D_LAT * D2R)), da = (D_LON - ORIENT) * D2R;
        std::vector<double> ax[2];
        for (int y = 0; y < 2; y++) {
            MVar w;
            w.name = (y ? YN[g] : XN[g]) + ap;
            w.type = g == 3 ? CDM_DOUBLE : CDM_FLOAT;
            w.shape = {w.name};
            for (int k = 0; k < (y ? q.ny : q.nx); k++) {
                if (g == 3) w.data.push_back((y ? -rho * std::cos(da) : rho * std::sin(da)) + D_STEP * k);
                else w.data.push_back(y ? 60 + (g == 1 ? -0.25 : 0.25) * k : 2 + 0.5 * k);
            }
            w.sizes = {w.data.size()};
            if (g == 3) w.tol = 1e-7;
            ax[y] = w.data;
            v.vars.push_back(w);
        }
        if (g >= 2) // where the points lie
            for (int y = 0; y < 2; y++) {
                MVar w;
                w.name = (y ? "latitude" : "longitude") + ap;
                w.type = CDM_DOUBLE;
                w.shape = {XN[g] + ap, YN[g] + ap};
                w.sizes = {size_t(q.nx), size_t(q.ny)};
                for (int b = 0; b < q.ny; b++)
                    for (int c = 0; c < q.nx; c++) {
                        double lat, lon;
                        if (g == 3) {
                            const double r2 = std::hypot(ax[0][c], ax[1][b]);
                            lat = 90 - 2 * std::atan(r2 / (radius * (1 + std::sin(D_TS * D2R)))) / D2R;
                            lon = ORIENT + std::atan2(ax[0][c], -ax[1][b]) / D2R;
                        } else {
                            const double rl = ax[0][c] * D2R, rp = ax[1][b] * D2R, pl = -POLE_LAT * D2R;
                            lat = std::asin(std::sin(rp) * std::sin(pl) + std::cos(rp) * std::cos(rl) * std::cos(pl)) / D2R;
                            lon = POLE_LON + std::atan2(std::cos(rp) * std::sin(rl), std::sin(pl) * std::cos(rp) * std::cos(rl) - std::cos(pl) * std::sin(rp)) / D2R;
                            if (lon > 180) lon -= 360;
                            if (lon < -180) lon += 360;
                        }
                        w.data.push_back(y ? lat : lon);
                    }
                w.tol = 1e-7;
                v.vars.push_back(w);
            }
    }
    if (levels.count("c"))
        for (const char* n : {"ap", "b", "hybrid"}) {
            MVar w;
            w.name = n;
            w.type = CDM_DOUBLE;
            w.shape = {"hybrid"};
            w.sizes = {levels["c"].size()};
            for (int l : levels["c"]) {
                double h[2];
                for (int c = 0; c < 2; c++) h[c] = (HALF[c][HYBRID[l] - 1] + HALF[c][HYBRID[l]]) / 2;
                w.data.push_back(*n == 'a' ? h[0] : *n == 'b' ? h[1] : h[0] / 100000 + h[1]);
            }
            v.vars.push_back(w);
        }
    for (size_t i = 0; i < lsets.size(); i++) {
        MVar w;
        w.name = "pressure" + (lsets.size() > 1 ? std::to_string(i) : "");
        w.shape = {w.name};
        for (int l : lsets[i]) w.data.push_back(double(LEVELS[l]));
        w.sizes = {w.data.size()};
        v.vars.push_back(w);
    }
    if (nt) {
        MVar w;
        w.name = "time";
        w.type = CDM_DOUBLE;
        w.shape = {"time"};
        for (int t : times) w.data.push_back(double(REF + STEPS[t] * 3600));
        w.sizes = {w.data.size()};
        v.vars.push_back(w);
    }
    return v;
}
std::vector<const Msg*> in_order(const GData& d)
{
    std::vector<const Msg*> ms;
    for (auto& f : d.files) ms.insert(ms.end(), f.msgs.begin(), f.msgs.end());
    return ms;
}

// ---------- ways to open a dataset ----------
struct Access { int how = 0; std::string type, file; std::vector<std::string> args; std::string text; };
enum { A_FILE, A_MANY, A_ARGS, A_LIST, A_GLOB, A_GRBML, A_GRBFP };

std::string make_grbml(const GData& d, const std::string& earth)
{
    Quiet q;
    NoFaults nf;
    std::string out = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<gribFileIndex url=\"file:x\" xmlns=\"http://www.met.no/schema/fimex/gribFileIndex\">\n";
    std::map<std::string, std::string> opt;
    if (!earth.empty()) opt["earthfigure"] = earth;
    for (auto& f : d.files) {
        GribFileIndex gfi(createDefaultChunkReaderFactory(), f.name, std::vector<std::pair<std::string, std::regex>>(), opt);
        for (auto& m : gfi.listMessages()) out += m.toString();
    }
    return out + "</gribFileIndex>\n";
}
Access random_access(Rng& r, const GData& d, const std::string& prefix, const std::string& earth)
{
    Access a;
    std::vector<int> c;
    if (d.files.size() == 1) c = {A_FILE, A_FILE, A_GRBML};
    else c = {A_MANY, A_ARGS, A_LIST, A_GRBML};
    if (!d.http && d.files.size() > 1) c.push_back(A_GLOB);
    if (!d.members.empty()) c.erase(std::remove(c.begin(), c.end(), int(A_GRBML)), c.end());
    a.how = r.pick(c);
    a.type = "grib";
    std::string lst, many = "many:;";
    for (auto& f : d.files) lst += f.name + "\n", many += (many.size() > 6 ? ";" : "") + f.name;
    switch (a.how) {
    case A_FILE: a.file = d.files[0].name; break;
    case A_MANY: a.file = many; break;
    case A_ARGS:
        a.file = d.files[0].name;
        for (size_t i = 1; i < d.files.size(); i++) a.args.push_back(d.files[i].name);
        break;
    case A_LIST:
        write_file(scratch + prefix + ".list", lst);
        a.file = "list:" + scratch + prefix + ".list";
        break;
    case A_GLOB: a.file = "glob:" + (d.pattern.empty() ? scratch + prefix + "*.grib" : d.pattern); break;
    case A_GRBML:
        a.type = "grbml";
        a.file = (d.http ? "http://server.example/" : scratch) + prefix + ".grbml";
        put(a.file, make_grbml(d, earth));
        break;
    }
    a.args.insert(r.chance(1, 2) ? a.args.begin() : a.args.end(), d.members.begin(), d.members.end());
    static const char* const n[] = {"file", "many", "args", "list", "glob", "grbml", "grbfp"};
    a.text = std::string(n[a.how]) + (d.members.empty() ? "" : " as members") + (d.http ? " over http" : "");
    return a;
}
CDMReader_p open_grib(const Access& a, const std::string& xml) { return CDMFileReaderFactory::create(a.type, a.file, XMLInputString(xml), a.args); }

std::string check_earth(const CDMReader_p& rd, int ed, double radius)
{
    const double want = radius > 0 ? radius : ed == 1 ? 6367470 : 6371229;
    int n = 0;
    for (auto& v : rd->getCDM().getVariables()) {
        if (v.getName().compare(0, 11, "projection_")) continue;
        n++;
        auto num = [&](const char* a) {
            CDMAttribute at;
            return rd->getCDM().getAttribute(v.getName(), a, at) ? at.getData()->asDouble()[0] : NAN;
        };
        if (num("earth_radius") != want) return "earth radius " + std::to_string(num("earth_radius")) + " instead of " + std::to_string(want);
        if (v.getName().find("rotated") != std::string::npos && (num("grid_north_pole_latitude") != -POLE_LAT || std::remainder(num("grid_north_pole_longitude") - POLE_LON - 180, 360) != 0)) return "rotated pole at " + std::to_string(num("grid_north_pole_longitude")) + " " + std::to_string(num("grid_north_pole_latitude"));
        if (v.getName().find("stereo") != std::string::npos && (num("straight_vertical_longitude_from_pole") != ORIENT || num("standard_parallel") != D_TS || num("latitude_of_projection_origin") != 90)) return "wrong stereographic projection";
    }
    if (!n) return "no projection";
    return "";
}
const std::vector<FaultKindOpt> grib_faults = {{F_HTTP, 5}, {F_READ_EIO, 3}, {F_READ_EOF, 3}, {F_READ_SHORT, 2}, {F_READ_EINTR, 1}, {F_OPEN_FAIL, 2}, {F_SEEK_FAIL, 2}, {F_ALLOC, 2}};

void fixtures()
{
    const std::string& p = chosen_property();
    if (p.empty() || p == "S14" || p == "S07" || p == "S04") {
        make_bank();
        warm_up();
    }
}
hs::InitReg reg(fixtures);
} // namespace

// turns a request into one for a part of the layers
static void part_of_layer(Rng& r, const View& w, Get& g)
{
    std::vector<const MVar*> big;
    for (auto& m : w.vars)
        if (m.sizes.size() > 2) big.push_back(&m);
    if (g.beyond || big.empty()) return;
    const MVar& v = *big[r.below(big.size())];
    g.var = v.name;
    g.kind = g.kind < 6 ? g.kind / 3 * 3 + 2 : 5;
    g.unit.clear();
    g.start.clear(), g.size.clear();
    const size_t cut = v.sizes.size() - 1 - r.below(2);
    for (size_t i = 0; i < v.sizes.size(); i++) {
        const size_t n = v.sizes[i];
        size_t st = 0, sz = n;
        if (i == cut && n > 1) {
            sz = 1 + r.below(n - 1);
            st = r.below(n - sz + 1);
        } else if (r.chance(1, 3)) {
            st = r.below(n);
            sz = 1 + r.below(n - st);
        }
        g.start.push_back(st);
        g.size.push_back(sz);
    }
}

static void readers(Rng& rng, bool faulty)
{
    const bool crowd = rng.chance(1, 2); // several threads on one small dataset through one reader
    const int nd = crowd ? 1 : rng.range(1, 3);
    struct Ds { GData d; Access a; View v; std::string xml; double radius; };
    std::vector<Ds> ds(nd);
    for (int i = 0; i < nd; i++) {
        Ds& s = ds[i];
        s.d = random_grib(rng, std::string(1, char('a' + i)), true, crowd ? 1 : 3);
        store(s.d);
        s.radius = rng.chance(1, 2) ? 0 : 6370000 + 1000 * i;
        std::string earth = s.radius > 0 ? "+a=" + std::to_string(int(s.radius)) + " +e=0" : "";
        s.xml = config_xml(earth);
        s.a = random_access(rng, s.d, std::string(1, char('a' + i)), earth);
        s.v = view_of_msgs(s.d.ed, in_order(s.d), s.d.ne, s.radius);
    }
    const int nt = rng.range(crowd ? 2 : 1, 4);
    struct Job { int ds; bool own; std::vector<Get> gets; };
    std::vector<Job> jobs;
    for (int t = 0; t < nt; t++) {
        Job j;
        j.ds = int(rng.below(nd));
        j.own = !crowd && rng.chance(2, 3);
        j.gets = random_gets(rng, ds[j.ds].v, 1, crowd ? 6 : 4, t && jobs.back().ds == j.ds ? &jobs.back().gets : nullptr);
        if (crowd) // parts of layers
            for (auto& g : j.gets)
                if (rng.chance(2, 3)) part_of_layer(rng, ds[j.ds].v, g);
        jobs.push_back(j);
    }
    std::vector<CDMReader_p> shared(nd);
    for (auto& j : jobs)
        if (!j.own && !shared[j.ds]) {
            NoFaults nf;
            shared[j.ds] = open_grib(ds[j.ds].a, ds[j.ds].xml);
        }
    auto work = [&](const Job& j, bool faults, bool check) {
        const Ds& s = ds[j.ds];
        CDMReader_p rd = shared[j.ds];
        if (j.own) {
            Outcome oc = attempt([&] { rd = open_grib(s.a, s.xml); });
            if (oc.threw) {
                probe("open_error");
                if (check && !faults) violation("unexpected-error", "opening GRIB (%s) failed without any fault: %s", s.a.text.c_str(), oc.what.c_str());
                return;
            }
        }
        if (check) {
            NoFaults nf;
            std::string e = check_cdm(rd, s.v);
            if (e.empty()) e = check_earth(rd, s.d.ed, s.radius);
            if (!e.empty()) violation("wrong-metadata", "GRIB (%s): %s", s.a.text.c_str(), e.c_str());
        }
        for (auto& g : j.gets) {
            std::string e;
            Outcome oc = attempt([&] { e = check_get(rd, s.v, g); });
            if (oc.threw) {
                probe("read_error");
                if (check && !faults) violation("unexpected-error", "reading %s (%s) failed without any fault: %s", get_text(g).c_str(), s.a.text.c_str(), oc.what.c_str());
                continue;
            }
            if (check && !e.empty()) violation("wrong-data", "GRIB (%s): %s", s.a.text.c_str(), e.c_str());
            probe("reads");
        }
    };
    std::vector<Fault> fs;
    if (faulty) {
        OpCount c = rehearse([&] { for (auto& j : jobs) work(j, true, false); });
        auto kinds = grib_faults;
        for (auto& s : ds) // a truncated list of names cannot be told from a shorter list
            if (s.a.how == A_LIST) kinds.erase(std::remove_if(kinds.begin(), kinds.end(), [](const FaultKindOpt& k) { return k.kind == F_READ_EOF; }), kinds.end());
        fs = draw_faults(rng, c, kinds);
        use_faults(fs);
        arm_faults(true);
    }
    std::string tx;
    for (auto& s : ds) tx += s.a.text + " grib" + std::to_string(s.d.ed) + " " + std::to_string(in_order(s.d).size()) + " messages; ";
    sample("%d threads on %s faults: %s", nt, tx.c_str(), fault_text(fs).c_str());
    for (int t = 0; t < nt; t++) spawn([&, t] { work(jobs[t], faulty, true); });
    join_all();
    arm_faults(false);
    if (faulty) { // recovery: the shared readers work again, new ones can be opened
        Quiet q;
        for (auto& j : jobs) work(j, false, true);
    }
}
SIM_SCENARIO(S14, readers, 3) { readers(rng, false); }
SIM_SCENARIO(S14, reader_faults, 4) { readers(rng, true); }

// ---------- histories of stored indexes: create, append, replace, convert ----------
static void index_history(Rng& rng, bool faulty)
{
    GData d = random_grib(rng, "i", false, 4, false);
    store(d);
    const std::string cfg = scratch + "cfg.xml", grbml = scratch + "x.grbml", grbfp = scratch + "x.grbfp", xml = config_xml("");
    write_file(cfg, xml);
    struct Step { int kind; std::vector<int> files; int ver = 0; }; // 0 create, 1 append, 2 convert to grbfp, 3 grbfp from files
    std::vector<Step> steps;
    // contents of the files change during the history: a new version holds another subset
    std::vector<std::vector<std::vector<const Msg*>>> ver(d.files.size());
    for (size_t f = 0; f < d.files.size(); f++) ver[f].push_back(d.files[f].msgs);
    {
        Step s{0, {}};
        const size_t k = 1 + rng.below(d.files.size());
        for (size_t f = 0; f < k; f++) s.files.push_back(int(f));
        steps.push_back(s);
        for (size_t f = k; f < d.files.size(); f++) steps.push_back({1, {int(f)}});
        for (int n = rng.range(0, 2); n > 0; n--) {
            const int f = int(rng.below(d.files.size()));
            std::vector<const Msg*> ms;
            for (auto* m : ver[f].back())
                if (rng.chance(2, 3)) ms.push_back(rng.chance(1, 3) ? &msg(d.ed, m->p, m->l, m->t, m->e, 1) : m);
            if (ms.empty()) ms.push_back(ver[f].back().front());
            steps.push_back({1, {f}, int(ver[f].size())});
            ver[f].push_back(ms);
        }
        // grbfp indexes hold file names without directories
        if (d.scattered) {}
        else if (rng.chance(1, 2)) steps.push_back({2, {}});
        else if (rng.chance(1, 3)) {
            Step s2{3, {}};
            for (size_t f = 0; f < d.files.size(); f++) s2.files.push_back(int(f));
            steps.push_back(s2);
        }
    }
    typedef std::vector<std::pair<int, const Msg*>> Model; // file, message
    const bool withcfg = rng.chance(1, 2);
    std::vector<Get> gets;
    Model content, fp;
    std::string log, bad;
    // returns false when the program reported a failure
    auto run = [&](const Step& s, std::string* what) {
        std::vector<std::string> a;
        if (s.kind == 0) a = {"-o", grbml};
        else if (s.kind == 1) a = {"-a", grbml};
        else a = {"-o", grbfp};
        if (withcfg || s.kind >= 2) a.push_back("-c"), a.push_back(cfg);
        if (s.kind == 2) a.push_back(grbml);
        for (int f : s.files) a.push_back(d.files[f].name);
        return run_tool("fiIndexGribs", a, what) == 0;
    };
    auto apply = [&](const Step& s) {
        if (s.kind == 0) content.clear();
        if (s.kind == 1) content.erase(std::remove_if(content.begin(), content.end(), [&](const std::pair<int, const Msg*>& m) { return m.first == s.files[0]; }), content.end());
        if (s.kind == 3) fp.clear();
        for (int f : s.files)
            for (auto* m : d.files[f].msgs) (s.kind == 3 ? fp : content).push_back({f, m});
        if (s.kind == 2) fp = content;
    };
    auto check = [&](const std::string& type, const std::string& file, const Model& m, const std::string& when) {
        if (m.empty()) return;
        Quiet q;
        NoFaults nf;
        std::vector<const Msg*> ms;
        for (auto& x : m) ms.push_back(x.second);
        View v = view_of_msgs(d.ed, ms);
        std::string e;
        Outcome oc = attempt([&] {
            CDMReader_p rd = CDMFileReaderFactory::create(type, file, XMLInputString(type == "grbfp" && !d.root.empty() ? "<cdm_fimex_index_reader_config><root_path>" + d.root + "</root_path></cdm_fimex_index_reader_config>" : xml));
            e = check_cdm(rd, v);
            Rng r2(rng.next());
            for (int k = 0; k < 3 && e.empty(); k++) e = check_get(rd, v, random_get(r2, v));
        });
        if (oc.threw) e = "cannot be read: " + oc.what;
        if (!e.empty()) violation("wrong-index", "%s index is wrong after %s: %s [%s]", type.c_str(), when.c_str(), e.c_str(), log.c_str());
        probe("index_checks");
    };
    std::vector<Fault> fs;
    if (faulty) {
        OpCount c = rehearse([&] {
            for (auto& s : steps) {
                if (s.ver) put(d.files[s.files[0]].name, d.files[s.files[0]].bytes());
                run(s, nullptr);
            }
        });
        fs = draw_faults(rng, c, {{F_WRITE_ENOSPC, 3}, {F_WRITE_EIO, 3}, {F_WRITE_SHORT, 1}, {F_WRITE_EINTR, 1}, {F_CLOSE_FAIL, 2}, {F_OPEN_FAIL, 3}, {F_READ_EIO, 3}, {F_READ_SHORT, 1}, {F_READ_EINTR, 1}, {F_SEEK_FAIL, 1}, {F_ALLOC, 1}}, 2);
        use_faults(fs);
        ::unlink(grbml.c_str());
        ::unlink(grbfp.c_str());
        arm_faults(true);
    }
    bool known = true; // is the content of the index known?
    for (auto& s : steps) {
        static const char* const nm[] = {"create", "append", "convert", "grbfp"};
        if (s.ver) {
            NoFaults nf;
            GFile& f = d.files[s.files[0]];
            f.msgs = ver[s.files[0]][s.ver];
            put(f.name, f.bytes());
            // positions of a replaced file are stale until it is indexed again
        }
        log += std::string(log.empty() ? "" : ", ") + nm[s.kind];
        for (int f : s.files) log += " " + std::to_string(f) + (s.ver ? "'" : "");
        std::string what;
        bool ok = run(s, &what);
        if (!ok) {
            probe("tool_error");
            if (!faulty) violation("unexpected-error", "fiIndexGribs failed without any fault: %s [%s]", what.c_str(), log.c_str());
            NoFaults nf;
            log += " failed: " + what + "; repeated";
            if (s.kind == 1) { // what a failed append leaves is not specified: start again
                Step s0{0, {}};
                for (auto& c : content)
                    if (std::find(s0.files.begin(), s0.files.end(), c.first) == s0.files.end()) s0.files.push_back(c.first);
                ::unlink(grbml.c_str());
                content.clear();
                if (!run(s0, &what)) violation("unexpected-error", "fiIndexGribs fails after a failure: %s [%s]", what.c_str(), log.c_str());
                apply(s0);
            }
            if (!run(s, &what)) violation("unexpected-error", "fiIndexGribs fails after a failure: %s [%s]", what.c_str(), log.c_str());
        }
        apply(s);
        (void)known;
        if (s.kind < 2) check("grbml", grbml, content, log);
        else check("grbfp", grbfp, fp, log);
        probe("index_steps");
    }
    arm_faults(false);
    sample("%s faults: %s", log.c_str(), fault_text(fs).c_str());
}
SIM_SCENARIO(S14, index, 2) { index_history(rng, false); }
SIM_SCENARIO(S07, index, 3) { index_history(rng, true); }

#include "mix.h"
hs::MixJob hs::mix_grib_read(Rng& rng, const std::string& id)
{
    struct Ds { GData d; Access a; View v; std::string xml; double radius; std::vector<Get> gets; };
    auto s = std::make_shared<Ds>();
    s->d = random_grib(rng, "g" + id + "_", true, 2);
    store(s->d);
    s->radius = rng.chance(1, 2) ? 0 : 6370000 + 1000 * int(rng.below(9));
    std::string earth = s->radius > 0 ? "+a=" + std::to_string(int(s->radius)) + " +e=0" : "";
    s->xml = config_xml(earth);
    s->a = random_access(rng, s->d, "g" + id + "_", earth);
    s->v = view_of_msgs(s->d.ed, in_order(s->d), s->d.ne, s->radius);
    for (int k = rng.range(1, 3); k > 0; k--) s->gets.push_back(random_get(rng, s->v));
    return {"grib read (" + s->a.text + ")", [s] {
                CDMReader_p rd = open_grib(s->a, s->xml);
                std::string e = check_earth(rd, s->d.ed, s->radius);
                if (!e.empty()) violation("wrong-metadata", "GRIB (%s): %s", s->a.text.c_str(), e.c_str());
                for (auto& g : s->gets) {
                    e = check_get(rd, s->v, g);
                    if (!e.empty()) violation("wrong-data", "GRIB (%s): %s", s->a.text.c_str(), e.c_str());
                }
            }};
}
