#include "fix.hpp"
#include "SubsystemLibrary.h"
#include "LoggingElementBuilderTemplate.h"
HW hw;
namespace {
std::string pathOf(const CElement *e) { return e->getPath(); }
class Obj : public CSubsystemObject {
public:
    Obj(const std::string &v, CInstanceConfigurableElement *e, const CMappingContext &c, core::log::Logger &l) : CSubsystemObject(e, l), el(e) {
        std::string m = e->getName() + "=" + v;
        for (size_t i = 0; i < 3; i++) m += c.iSet(i) ? ";" + c.getItem(i) : ";-";
        hw.made.push_back(m);
    }
    bool sendToHW(std::string &err) override { return go(false, err); }
    bool receiveFromHW(std::string &err) override { return go(true, err); }
    bool go(bool back, std::string &err) {
        std::string p = pathOf(el);
        if (hw.onSync) hw.onSync(p);
        bool ok = !hw.failing.count(p);
        if (back && ok && hw.back.count(p)) { auto &b = hw.back[p]; blackboardWrite(b.data(), b.size()); hw.evs.push_back({p, back, b, ok}); return true; }
        std::vector<uint8_t> b(getSize());
        blackboardRead(b.data(), b.size());
        hw.evs.push_back({p, back, b, ok});
        if (!ok) err = "sync of " + p + " failed";
        return ok;
    }
    CInstanceConfigurableElement *el;
};
class Sub : public CSubsystem {
public:
    Sub(const std::string &n, core::log::Logger &l) : CSubsystem(n, l) {
        addContextMappingKey("Ctx0"); addContextMappingKey("Ctx1"); addContextMappingKey("Ctx2");
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Obj>("Obj", 0));
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Obj>("ObjNeed0", 1));
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Obj>("Obj4", 0, 4));
    }
    bool isAlive() const override { return hw.alive; }
    bool needResync(bool clear) override { auto &r = hw.resync[getName()]; bool v = r; if (clear) r = false; return v; }
};
}
void harness_register(CSubsystemLibrary *lib, core::log::Logger &l) { lib->addElementBuilder("H", new TLoggingElementBuilderTemplate<Sub>(l)); }

std::string writeFile(const std::string &name, const std::string &content) {
    static int n = 0;
    std::string p = h::scratch() + "/" + std::to_string(getpid()) + "_" + std::to_string(n++) + "_" + name;
    std::ofstream(p) << content; return p;
}
FW::FW(const FWOpt &o, const std::vector<CritDef> &crits) {
    std::string st = writeFile("structure.xml", "<?xml version='1.0' encoding='UTF-8'?>\n<SystemClass Name='test'>"
        "<Subsystem Name='test' Type='H' Mapping='" + o.mapping + "'><ComponentLibrary>" + o.components + "</ComponentLibrary>"
        "<InstanceDefinition>" + o.instances + "</InstanceDefinition></Subsystem>" + o.extraSubsystems + "</SystemClass>");
    domFile = writeFile("domains.xml", "<?xml version='1.0' encoding='UTF-8'?>\n<ConfigurableDomains SystemClassName=\"test\">" + o.domains + "</ConfigurableDomains>");
    const char *pd = getenv("H_PLUGDIR");
    std::string conf = writeFile("config.xml", std::string("<?xml version='1.0' encoding='UTF-8'?>\n<ParameterFrameworkConfiguration SystemClassName='test' TuningAllowed='") + (o.tuning ? "true" : "false") + "'>"
        "<SubsystemPlugins><Location Folder='" + (pd ? pd : ".") + "'><Plugin Name='libhplug.so'/></Location></SubsystemPlugins>"
        "<StructureDescriptionFileLocation Path='" + st + "'/><SettingsConfiguration><ConfigurableDomainsFileLocation Path='" + domFile + "'/></SettingsConfiguration></ParameterFrameworkConfiguration>");
    pf.reset(new CParameterMgrFullConnector(conf));
    pf->setLogger(&log);
    mgr = pf->_pParameterMgr;
    pf->setForceNoRemoteInterface(true);
    std::string e;
    pf->CParameterMgrPlatformConnector::setFailureOnMissingSubsystem(o.failMissing, e);
    pf->CParameterMgrPlatformConnector::setFailureOnFailedSettingsLoad(o.failSettings, e);
    for (auto &c : crits) {
        auto t = pf->createSelectionCriterionType(c.incl);
        for (auto &v : c.vals) { std::string x; if (!t->addValuePair(v.second, v.first, x)) h::fail("criterion " + c.name + ": " + x); }
        crit[c.name] = pf->createSelectionCriterion(c.name, t);
    }
    if (o.start && !start()) h::fail("start: " + err);
}
FW::~FW() {}
CElement *FW::elem(const std::string &path) {
    CElement *e = mgr->getSystemClass();
    std::istringstream in(path); std::string it; bool first = true;
    while (std::getline(in, it, '/')) {
        if (it.empty()) continue;
        if (first) { first = false; if (it == "test" && path.compare(0, 5, "/test") == 0) continue; }
        CElement *n = nullptr;
        for (size_t i = 0; i < e->getNbChildren(); i++) if (e->_childArray[i]->getName() == it) n = e->_childArray[i];
        if (!n) h::fail("no element " + path);
        e = n;
    }
    return e;
}
size_t FW::off(const std::string &p) { return static_cast<CConfigurableElement *>(elem(p))->getOffset(); }
size_t FW::len(const std::string &p) { return static_cast<CConfigurableElement *>(elem(p))->getFootPrint(); }
const char *ALLPARAMS = R"(
  <BooleanParameter Name="bool" Mapping="Obj"/>
  <BooleanParameter ArrayLength="2" Name="bool_array" Mapping="Obj"/>
  <IntegerParameter Signed="false" Min="33" Max="123" Size="16" Name="u16" Mapping="Obj"/>
  <IntegerParameter Signed="true" Min="-100" Max="100" Size="8" Name="s8" Mapping="Obj"/>
  <IntegerParameter Signed="false" Size="8" Name="u8" Mapping="Obj"/>
  <IntegerParameter Signed="true" Size="32" Name="s32" Mapping="Obj"/>
  <IntegerParameter Signed="false" Size="32" Name="u32" Mapping="Obj"/>
  <IntegerParameter Signed="true" Min="-10" Max="10" Size="32" ArrayLength="4" Name="int_array" Mapping="Obj"/>
  <FixedPointParameter Size="32" Integral="3" Fractional="4" Name="fix" Mapping="Obj"/>
  <FixedPointParameter Size="16" Integral="3" Fractional="4" ArrayLength="3" Name="fix_array" Mapping="Obj"/>
  <FloatingPointParameter Size="32" Min="-5.5" Max="100.25" Name="float" Mapping="Obj"/>
  <EnumParameter Size="8" Name="enum" Mapping="Obj"><ValuePair Literal="min" Numerical="-128"/><ValuePair Literal="five" Numerical="5"/><ValuePair Literal="max" Numerical="127"/></EnumParameter>
  <EnumParameter Size="16" ArrayLength="4" Name="enum_array" Mapping="Obj"><ValuePair Literal="eight" Numerical="8"/><ValuePair Literal="min" Numerical="-32767"/></EnumParameter>
  <StringParameter MaxLength="12" Name="string" Mapping="Obj"/>
  <BitParameterBlock Size="16" Name="bits" Mapping="Obj"><BitParameter Pos="1" Size="1" Max="1" Name="one"/><BitParameter Pos="3" Size="4" Max="10" Name="four"/><BitParameter Pos="8" Size="8" Max="255" Name="eight"/></BitParameterBlock>
  <ParameterBlock Name="block" Mapping="Obj"><IntegerParameter Signed="false" Size="8" Name="a"/><IntegerParameter Signed="false" Size="16" Name="b"/><IntegerParameter Signed="false" Size="8" Name="c"/></ParameterBlock>
  <ParameterBlock Name="blocks" ArrayLength="2"><IntegerParameter Signed="false" Size="8" Name="x" Mapping="Obj"/><IntegerParameter Signed="false" Size="16" Name="y" Mapping="Obj"/></ParameterBlock>
)";
