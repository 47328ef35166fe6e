// A whole parameter framework over a recording subsystem, built from XML pieces.
#pragma once
#include "h.hpp"
#include "ParameterMgrFullConnector.h"
#include "ParameterMgr.h"
#include "Subsystem.h"
#include "SubsystemObject.h"
#include "SubsystemObjectFactory.h"
#include "SystemClass.h"
#include "ParameterBlackboard.h"
#include "ConfigurableDomains.h"
#include "ConfigurableDomain.h"
#include "DomainConfiguration.h"
#include "SelectionCriteria.h"
#include "SelectionCriterion.h"
#include "SelectionCriterionType.h"
#include "InstanceConfigurableElement.h"
#include "BitParameterBlockType.h"
#include "ParameterType.h"
#include "ElementHandle.h"
#include "ParameterHandle.h"
#include "BitParameterType.h"
#include "MappingContext.h"

struct SyncEv { std::string path; bool back; std::vector<uint8_t> bytes; bool ok; };
struct HW {                       // what the fake hardware saw
    std::vector<SyncEv> evs;
    std::set<std::string> failing;   // element paths whose synchronisation fails
    std::map<std::string, std::vector<uint8_t>> back;  // bytes reported on back synchronisation
    std::map<std::string, bool> resync;    // subsystem name -> asks for resync
    std::vector<std::string> made;   // objects created: element=value;context items
    bool alive = true;
    std::function<void(const std::string &)> onSync;
    int count(const std::string &p, bool b = false) const { int n = 0; for (auto &e : evs) n += e.path == p && e.back == b; return n; }
    void clear() { evs.clear(); }
};
extern HW hw;

struct FWOpt {
    std::string instances, components, domains, mapping, extraSubsystems;
    bool tuning = true, failMissing = true, failSettings = true, start = true, validateDomains = false;
};
struct CritDef { std::string name; bool incl; std::vector<std::pair<std::string, int>> vals; };
struct Quiet : CParameterMgrPlatformConnector::ILogger {
    std::string all; bool keep = false;
    void info(const std::string &s) override { if (keep) all += s + "\n"; }
    void warning(const std::string &s) override { if (keep) all += s + "\n"; }
};
struct FW {
    std::unique_ptr<CParameterMgrFullConnector> pf;
    CParameterMgr *mgr = nullptr;
    Quiet log;
    std::string err, dir = h::scratch(), domFile;
    bool started = false;
    std::map<std::string, ISelectionCriterionInterface *> crit;
    FW(const FWOpt &o, const std::vector<CritDef> &crits = {});
    ~FW();
    bool start() { started = pf->start(err); return started; }
    bool set(const std::string &p, const std::string &v) { std::string x = v; err = ""; return pf->accessParameterValue(p, x, true, err); }
    bool get(const std::string &p, std::string &v) { err = ""; v = ""; return pf->accessParameterValue(p, v, false, err); }
    std::string get(const std::string &p) { std::string v; if (!get(p, v)) return "ERR:" + err; return v; }
    bool tune(bool on) { err = ""; return pf->setTuningMode(on, err); }
    std::unique_ptr<ElementHandle> handle(const std::string &p) { std::string e; std::unique_ptr<ElementHandle> r(pf->createElementHandle(p, e)); if (!r) h::fail("no handle " + p + ": " + e); return r; }
    // a write of a handle only takes place out of tuning mode
    void raw(bool r) { pf->setValueSpace(r); }
    void hexf(bool r) { pf->setOutputRawFormat(r); }
    bool confSet(const std::string &d, const std::string &c, const std::string &p, const std::string &v) { std::string x = v; err = ""; return pf->accessConfigurationValue(d, c, p, x, true, err); }
    std::string confGet(const std::string &d, const std::string &c, const std::string &p) { std::string v; err = ""; if (!pf->accessConfigurationValue(d, c, p, v, false, err)) return "ERR:" + err; return v; }
    void setCrit(const std::string &n, int v) { crit[n]->setCriterionState(v); }
    void apply() { pf->applyConfigurations(); }
    std::vector<uint8_t> bb() const { return mgr->_pMainParameterBlackboard->mBlackboard; }
    CElement *elem(const std::string &path);
    size_t off(const std::string &path);
    size_t len(const std::string &path);
    std::vector<uint8_t> slice(const std::string &path) { auto b = bb(); return std::vector<uint8_t>(b.begin() + off(path), b.begin() + off(path) + len(path)); }
    void domain(const std::string &n) { std::string e; if (!pf->createDomain(n, e)) h::fail("createDomain " + e); }
    void conf(const std::string &d, const std::string &c) { std::string e; if (!pf->createConfiguration(d, c, e)) h::fail("createConfiguration " + e); }
    void add(const std::string &d, const std::string &p) { std::string e; if (!pf->addConfigurableElementToDomain(d, p, e)) h::fail("addConfigurableElement " + e); }
    void rule(const std::string &d, const std::string &c, const std::string &r) { std::string e; if (!pf->setApplicationRule(d, c, r, e)) h::fail("setApplicationRule " + e); }
    CConfigurableDomain *dom(const std::string &n) { return static_cast<CConfigurableDomain *>(mgr->getConfigurableDomains()->findChild(n)); }
    std::string last(const std::string &d) { auto x = dom(d); return x ? x->getLastAppliedConfigurationName() : "?"; }
};
std::string writeFile(const std::string &name, const std::string &content);
extern const char *ALLPARAMS;   // one of every parameter kind
