// Everything that creates independent variables, compiled in two translation units.
#ifndef IDS_HPP
#define IDS_HPP
#include <uncertainties/core.hpp>
#include <vector>
#include <string>
struct Made { std::vector<uncertainties::Id> ids, zeros; };
enum { NKINDS = 26 };
const char *kind_name(int k);
Made make_a(int kind);
Made make_b(int kind);
#endif
