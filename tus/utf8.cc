// explicit instantiation of the code under verification (no code of its own)
#include "utils/Utf8.h"
#include <string>
template std::back_insert_iterator<std::string> drafter::utils::utf8::encode(drafter::utils::utf8::codepoint, std::back_insert_iterator<std::string>);
