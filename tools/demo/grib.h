// GRIB-1 messages on a regular grid of nx*ny points, made with the bare ecCodes library
#pragma once
#include <grib_api.h>
#include <string>
#include <vector>
inline std::string grib_message(int nx, int ny, long level, long step, const std::vector<double>& x)
{
    grib_handle* h = grib_handle_new_from_samples(0, "GRIB1");
    if (!h) abort();
    auto gl = [&](const char* k, long v) { if (grib_set_long(h, k, v)) abort(); };
    auto gd = [&](const char* k, double v) { if (grib_set_double(h, k, v)) abort(); };
    gl("deleteLocalDefinition", 1);
    gl("Ni", nx), gl("Nj", ny);
    gd("longitudeOfFirstGridPointInDegrees", 2), gd("latitudeOfFirstGridPointInDegrees", 60);
    gd("longitudeOfLastGridPointInDegrees", 2 + 0.25 * (nx - 1)), gd("latitudeOfLastGridPointInDegrees", 60 + 0.25 * (ny - 1));
    gd("iDirectionIncrementInDegrees", 0.25), gd("jDirectionIncrementInDegrees", 0.25);
    gl("jScansPositively", 1);
    gl("dataDate", 20200101), gl("dataTime", 0);
    gl("indicatorOfParameter", 130), gl("indicatorOfTypeOfLevel", 100), gl("level", level), gl("unitOfTimeRange", 1), gl("P1", step);
    gl("decimalPrecision", 0);
    if (grib_set_double_array(h, "values", x.data(), x.size())) abort();
    const void* b;
    size_t n;
    if (grib_get_message(h, &b, &n)) abort();
    std::string s((const char*)b, n);
    grib_handle_delete(h);
    return s;
}
inline std::string grib_config()
{
    return "<?xml version=\"1.0\"?>\n<cdmGribReaderConfig xmlns=\"http://www.met.no/schema/fimex/cdmGribReaderConfig\">"
           "<processOptions><option name=\"selectParameters\" value=\"definedOnly\"/></processOptions>"
           "<global_attributes><attribute name=\"Conventions\" type=\"string\" value=\"CF-1.0\"/></global_attributes><axes>"
           "<time id=\"time\" name=\"time\" type=\"double\"><attribute name=\"units\" type=\"string\" value=\"seconds since 1970-01-01 00:00:00 +00:00\"/></time>"
           "<spatial_axis typeOfGrid=\"regular_ll\" id=\"x\" name=\"longitude\" type=\"float\"><attribute name=\"units\" type=\"string\" value=\"degrees_east\"/></spatial_axis>"
           "<spatial_axis typeOfGrid=\"regular_ll\" id=\"y\" name=\"latitude\" type=\"float\"><attribute name=\"units\" type=\"string\" value=\"degrees_north\"/></spatial_axis>"
           "<spatial_axis id=\"longitude\" name=\"longitude\"/><spatial_axis id=\"latitude\" name=\"latitude\"/>"
           "<vertical_axis id=\"pressure\" name=\"pressure\" grib1_id=\"100\" grib2_id=\"100\" type=\"float\"><attribute name=\"units\" type=\"string\" value=\"hPa\"/></vertical_axis>"
           "</axes><variables><parameter name=\"t\" type=\"float\"><grib1 indicatorOfParameter=\"130\"/><grib2 parameterNumber=\"0\" parameterCategory=\"0\" discipline=\"0\"/>"
           "<attribute name=\"units\" type=\"string\" value=\"K\"/><attribute name=\"_FillValue\" type=\"float\" value=\"-32767\"/></parameter></variables></cdmGribReaderConfig>";
}
inline void put_file(const std::string& n, const std::string& s)
{
    FILE* f = fopen(n.c_str(), "wb");
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
