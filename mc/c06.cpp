// C06: the Huffman block coder.
#include "entropy.hpp"
int main(int argc, char** argv) { return mc::run(argc, argv, [](std::vector<Family>& F) { entropyFamilies(F, "H"); }); }
