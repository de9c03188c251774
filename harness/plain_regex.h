// std::regex instantiated once, without sanitizers (in pbt.cpp): compiling its patterns dominates the run time of C18 otherwise
#pragma once
#include <regex>
#ifndef PLAIN_REGEX
#define PLAIN_REGEX extern template
#endif
#define PLAIN_RT std::__cxx11::regex_traits<char>
PLAIN_REGEX class std::__cxx11::basic_regex<char>;
PLAIN_REGEX class std::__detail::_Scanner<char>;
PLAIN_REGEX class std::__detail::_NFA<PLAIN_RT>;
PLAIN_REGEX class std::__detail::_Compiler<PLAIN_RT>;
PLAIN_REGEX class std::__detail::_BracketMatcher<PLAIN_RT, false, false>;
PLAIN_REGEX class std::__detail::_BracketMatcher<PLAIN_RT, false, true>;
PLAIN_REGEX class std::__detail::_BracketMatcher<PLAIN_RT, true, false>;
PLAIN_REGEX class std::__detail::_BracketMatcher<PLAIN_RT, true, true>;
