// time zones, boundary instants and an independent civil calendar
#pragma once
#include "sx.h"
#include <time.h>
#include <stdlib.h>
#include <algorithm>
static const std::vector<const char*> g_tz = {"UTC0", "CST-8", "<+0545>-5:45", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<-03>3<-02>,M10.3.0/0,M2.3.0/0", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "IST-1GMT0,M10.5.0,M3.5.0/1", "<+14>-14", "<-12>12"};
static void set_tz(const char* z) { setenv("TZ", z, 1); tzset(); }
// broken-down local time from first principles: the offset in force (scanned transitions) and the civil calendar
static long off_of(long long t) { time_t x = (time_t)t; struct tm m; localtime_r(&x, &m); return m.tm_gmtoff; }
static std::string stamp(long long t, int ms) {
    long long l = t + off_of(t); long long d = l >= 0 ? l / 86400 : -((86399 - l) / 86400); int s = (int)(l - d * 86400);
    long long z = d + 719468; long long era = (z >= 0 ? z : z - 146096) / 146097; long long doe = z - era * 146097; long long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long long y = yoe + era * 400;
    int doy = (int)(doe - (365 * yoe + yoe / 4 - yoe / 100)); int mp = (5 * doy + 2) / 153; int dd = doy - (153 * mp + 2) / 5 + 1; int mm = mp < 10 ? mp + 3 : mp - 9; if (mm <= 2) y++;
    return sx_fmt("[%04lld%02d%02d %02d:%02d:%02d.%03d]", y, mm, dd, s / 3600, s / 60 % 60, s % 60, ms);
}
static const std::vector<long long>& instants(size_t z) {
    static std::map<size_t, std::vector<long long>> c; auto& v = c[z]; if (!v.empty()) return v;
    set_tz(g_tz[z]); std::vector<long long> p = {0, 1, 59, 60, 3599, 3600, 43200, 86399, 86400, 86401, 951782399, 951782400, 951868799, 951868800, 1078012800, 1767225599, 1767225600, 2147483647LL, 2147483648LL, 4102444799LL, 4102444800LL, 253402250000LL};
    long long a = 1767225600LL, b = a + 366 * 86400LL;    // the transitions of 2026 to the second
    for (long long t = a; t < b; t += 3600) if (off_of(t) != off_of(t + 3600)) {
        long long lo = t, hi = t + 3600; while (hi - lo > 1) { long long m = (lo + hi) / 2; (off_of(m) == off_of(lo) ? lo : hi) = m; }
        for (long long k : {-86400LL, -3600LL, -1800LL, -1LL, 0LL, 1LL, 1800LL, 3599LL, 3600LL, 7200LL, 82800LL, 86399LL, 86400LL}) p.push_back(hi + k);
        // midnights around
        for (int d = -1; d <= 1; d++) { time_t x = (time_t)(hi + d * 86400LL); struct tm m; localtime_r(&x, &m); long long mid = x - (m.tm_hour * 3600 + m.tm_min * 60 + m.tm_sec); for (int k = -1; k <= 1; k++) p.push_back(mid + k); }
    }
    long long mid = 1767225600LL + 40 * 86400 - off_of(1767225600LL + 40 * 86400); for (long long k : {-86400LL, -1LL, 0LL, 1LL, 3599LL, 3600LL, 43200LL, 86399LL, 86400LL, 86401LL}) p.push_back(mid + k);
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); return v = p;
}
