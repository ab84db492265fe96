#include "c25.h"
namespace c25 {
void AddB()
{
    AddScalar<unsigned short>("unsigned short"); AddScalar<unsigned long>("unsigned long"); AddScalar<unsigned long long>("unsigned long long");
    AddScalar<float>("float"); AddScalar<double>("double"); AddScalar<long double>("long double"); AddScalar<bool>("bool");
    AddScalar<fs::path>("std::filesystem::path"); AddVector<bool>("vector<bool>");
}
}   // namespace c25
