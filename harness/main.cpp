#include "engine.hpp"

int main(int argc, char** argv) { return engine_main(argc, argv); }
