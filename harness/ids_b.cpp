#include "ids_make.hpp"
Made make_b(int k) { return make_here(k); }
