#include "c25.h"
namespace c25 {
void AddC()
{
    AddVector<char>("vector<char>"); AddVector<signed char>("vector<signed char>"); AddVector<unsigned char>("vector<unsigned char>");
    AddVector<std::string>("vector<string>"); AddVector<int>("vector<int>"); AddVector<short>("vector<short>"); AddVector<long>("vector<long>");
    AddVector<long long>("vector<long long>");
}
}   // namespace c25
