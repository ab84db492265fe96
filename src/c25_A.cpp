#include "c25.h"
namespace c25 {
void AddA()
{
    AddScalar<char>("char"); AddScalar<signed char>("signed char"); AddScalar<unsigned char>("unsigned char"); AddScalar<std::string>("string");
    AddScalar<int>("int"); AddScalar<short>("short"); AddScalar<long>("long"); AddScalar<long long>("long long"); AddScalar<unsigned>("unsigned");
}
}   // namespace c25
