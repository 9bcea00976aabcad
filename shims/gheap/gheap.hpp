#pragma once
#include <cstddef>
template<std::size_t F=2, std::size_t P=1> struct gheap {};
