#include "engine.hpp"
eng::Prop make_prop();
int main(int argc, char** argv) { return eng::engine_main(argc, argv, make_prop()); }
