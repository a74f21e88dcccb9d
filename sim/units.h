#pragma once
#include "rt.h"
void unit_start(const std::string &mode);
std::vector<std::string> words(const std::string &l);
std::string blocked_report();
size_t live_locks();
