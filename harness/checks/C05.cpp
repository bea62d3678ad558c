#include "common/slicer_explore.hpp"
int main(int argc, char** argv) { return vf::slicer_main("C05", argc, argv); }
