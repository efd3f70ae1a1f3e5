#include "rt.hpp"
int main(int argc, char **argv) { return rt::main_(argc, argv); }
