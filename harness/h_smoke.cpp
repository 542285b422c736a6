#include "common.h"
#include <mmx/Transaction.hxx>
#include <mmx/ChainParams.hxx>
int main(int argc, char** argv) { verif::Check c(argc, argv);
 auto tx = mmx::Transaction::create(); tx->expires = 5; 
 std::cout << vnx::to_string(*tx) << std::endl;
 tx->finalize();
 std::cout << tx->id.to_string() << std::endl;
 return c.finish(); }
