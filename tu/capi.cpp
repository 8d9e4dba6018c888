#include "c_wrapper.cpp"
