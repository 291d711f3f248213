// C07: the wavelet-tree block coder with every probability model.
#include "entropy.hpp"
int main(int argc, char** argv) { return mc::run(argc, argv, [](std::vector<Family>& F) { entropyFamilies(F, "BmMub"); }); }
