#include "common/slicer_explore.hpp"
int main(int argc, char** argv) { return vf::slicer_main("C04", argc, argv); }
