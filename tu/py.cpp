#include "python_bindings/fastvdf.cpp"
