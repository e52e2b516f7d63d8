// the one translation unit with the non-template code of the library
#include <uncertainties/impl.hpp>
#include <uncertainties/ureal.hpp>

long long pbt_ids();
void pbt_advance_ids(long long);

// the last identity given to a variable
long long pbt_ids() { return static_cast<long long>(uncertainties::UReal<double>(0, 1).indepid()); }
void pbt_advance_ids(long long n) {
    if (n > 50000000) n = 50000000;
    // not more than needed, if the identities are not consecutive
    for (long long k = 0; k < n && pbt_ids() < n; ++k) ;
}
