// Every standard header, so that a standard header the analysed code includes later is never read while a
// standard name is redirected to a model.
#ifndef QLV_STD_H
#define QLV_STD_H
#include <bits/stdc++.h>
#include <filesystem>
#include <cassert>
#endif
