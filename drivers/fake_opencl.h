#pragma once
#include <cstdint>
#include <string>
#include <vector>

void fakecl_set(const std::vector<std::vector<std::string>> &platforms);
void fakecl_fail_build_on(const std::string &device);
long fakecl_live_programs();

// Compile programs with clang's OpenCL front end and run kernels on the host, in dir.
void fakecl_run(const std::string &dir);
// the order of the work items, and the preferred work group size
void fakecl_schedule(uint64_t seed, size_t multiple);
// was anything outside a device buffer written?
bool fakecl_damaged();
long fakecl_kernels_run();
