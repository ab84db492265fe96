// A shared library with plugins of many names; copies of it are laid into the directories that C36 searches.
#include <dlfcn.h>
#include <fairmq/Plugin.h>
#include <stdexcept>
extern "C" void verif_note(int alive, const void* who, const char* name, const char* path);

namespace {
const char* Here()
{
    Dl_info i{};
    dladdr(reinterpret_cast<const void*>(&Here), &i);
    return i.dli_fname;
}
template<bool THROWS>
struct P : fair::mq::Plugin
{
    P(const std::string& name, Version v, const std::string& m, const std::string& h, fair::mq::PluginServices* s)
        : Plugin(name, v, m, h, s)
    {
        if (THROWS) { throw std::runtime_error("this plugin cannot be instantiated"); }
        verif_note(1, this, name.c_str(), Here());
    }
    ~P() override { verif_note(0, this, "", Here()); }
};
fair::mq::Plugin::ProgOptions Options(const char* name)
{
    boost::program_options::options_description o(std::string(name) + "@" + Here());
    o.add_options()((std::string(name) + "-opt").c_str(), boost::program_options::value<int>()->default_value(1), "an option");
    return o;
}
auto OptAlpha() -> fair::mq::Plugin::ProgOptions { return Options("alpha"); }
auto OptGamma() -> fair::mq::Plugin::ProgOptions { return Options("gamma"); }
auto OptConfig() -> fair::mq::Plugin::ProgOptions { return Options("config"); }
auto None() -> fair::mq::Plugin::ProgOptions { return boost::none; }
}   // namespace

REGISTER_FAIRMQ_PLUGIN(P<false>, alpha, (fair::mq::Plugin::Version{1, 0, 0}), "m", "h", OptAlpha)
REGISTER_FAIRMQ_PLUGIN(P<false>, beta, (fair::mq::Plugin::Version{1, 0, 1}), "m", "h", None)
REGISTER_FAIRMQ_PLUGIN(P<false>, gamma, (fair::mq::Plugin::Version{1, 0, 2}), "m", "h", OptGamma)
REGISTER_FAIRMQ_PLUGIN(P<false>, delta, (fair::mq::Plugin::Version{1, 0, 3}), "m", "h", None)
REGISTER_FAIRMQ_PLUGIN(P<false>, config, (fair::mq::Plugin::Version{1, 0, 4}), "m", "h", OptConfig)
REGISTER_FAIRMQ_PLUGIN(P<false>, sysnew, (fair::mq::Plugin::Version{1, 0, 5}), "m", "h", None)
REGISTER_FAIRMQ_PLUGIN(P<false>, sysold, (fair::mq::Plugin::Version{1, 0, 6}), "m", "h", None)
REGISTER_FAIRMQ_PLUGIN(P<true>, throwing, (fair::mq::Plugin::Version{1, 0, 7}), "m", "h", None)
// without program options
static auto Make_noopts_Plugin(fair::mq::PluginServices* s) -> std::unique_ptr<fair::mq::Plugin> { return std::make_unique<P<false>>("noopts", fair::mq::Plugin::Version{1, 0, 8}, "m", "h", s); }
BOOST_DLL_ALIAS(Make_noopts_Plugin, make_noopts_plugin)
// without a factory
BOOST_DLL_ALIAS(None, get_nomake_plugin_progoptions)
