// Pure-tone DLS material and frequency measurement.
#pragma once
#include "gen.h"
// frequency from interpolated upward zero crossings (0 when there are too few); amp: peak; jitter: largest deviation of a crossing from the grid, in periods
inline double crossings(const Pcm &p, int chans, int rate, size_t from, size_t to, double *amp, double *jitter, std::vector<double> *times = nullptr) {
    double first = -1, last = -1; int n = 0; double pk = 0; for (size_t i = from; i < to; i++) pk = std::max(pk, fabs((double)p[i * chans])); *amp = pk; *jitter = 0; bool armed = false; std::vector<double> at;
    for (size_t i = from + 1; i < to; i++) { double a = p[(i - 1) * chans], b = p[i * chans]; if (b < -pk / 4) armed = true; if (a < 0 && b >= 0 && armed) { double x = i - 1 + a / (a - b); at.push_back(x); armed = false; } }
    if (times) *times = at; if (at.size() < 4) return 0; first = at.front(); last = at.back(); n = (int)at.size() - 1; double P = (last - first) / n; double j = 0; for (size_t k = 0; k < at.size(); k++) j = std::max(j, fabs(at[k] - first - P * k)); *jitter = j / P; return rate / P; }
