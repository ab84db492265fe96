#include "c25.h"
namespace c25 {
void AddD()
{
    AddVector<unsigned>("vector<unsigned>"); AddVector<unsigned short>("vector<unsigned short>"); AddVector<unsigned long>("vector<unsigned long>");
    AddVector<unsigned long long>("vector<unsigned long long>"); AddVector<float>("vector<float>"); AddVector<double>("vector<double>");
    AddVector<long double>("vector<long double>"); AddVector<fs::path>("vector<std::filesystem::path>");
}
}   // namespace c25
