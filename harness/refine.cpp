// Runs one grid refinement (or one placement of the fixed temperature) per line on real domains (C24).
#include "cantera/core.h"
#include "cantera/onedim.h"
#include "cantera/oneD/DomainFactory.h"
#include "cantera/oneD/refine.h"
#include <iostream>
#include <sstream>
using namespace Cantera;

struct Plain : Domain1D {
    Plain(size_t nv, size_t np) : Domain1D(nv, np) {}
    string componentName(size_t n) const override { return "c" + std::to_string(n); }
    double initialValue(size_t, size_t) override { return 0; }
    void eval(size_t, double*, double*, integer*, double) override {}
};

int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) addDirectory(argv[i]);
    auto sol = newSolution("h2o2.yaml", "ohmech", "mixture-averaged");
    string line;
    std::cout.precision(17);
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string op;
        double tset = 0;
        size_t nd;
        in >> op >> tset >> nd;
        vector<shared_ptr<Domain1D>> doms;
        vector<vector<vector<double>>> prof;
        vector<char> isFlow;
        string err;
        int ret = 0;
        shared_ptr<Sim1D> sim;
        try {
            for (size_t d = 0; d < nd; d++) {
                int kind, npmax;
                size_t nv, np;
                double gridmin, ratio, slope, curve, prune;
                in >> kind >> nv >> np >> gridmin >> npmax >> ratio >> slope >> curve >> prune;
                vector<int> act(nv);
                for (auto& a : act) in >> a;
                vector<double> z(np);
                for (auto& a : z) in >> a;
                vector<vector<double>> x(np, vector<double>(nv));
                for (auto& p : x) for (auto& a : p) in >> a;
                double zf, zl, zr;
                in >> zf >> zl >> zr;
                shared_ptr<Domain1D> dom;
                if (kind == 0) {
                    dom = make_shared<Plain>(nv, np);
                    dom->setupGrid(np, z.data());
                    for (size_t i = 0; i < nv; i++) dom->refiner().setActive((int)i, act[i]);
                } else {
                    auto f = newDomain<Flow1D>(kind == 1 ? "free-flow" : "axisymmetric-flow", sol, "flow");
                    f->setupGrid(np, z.data());
                    for (size_t i = 0; i < f->nComponents(); i++) f->refiner().setActive((int)i, i == c_offset_T && act[0]);
                    if (kind == 1 && zf >= 0) { f->m_zfixed = zf; f->m_tfixed = 1000; }
                    if (kind == 2 && zl >= 0) { f->enableTwoPointControl(true); f->setLeftControlPointCoordinate(zl); f->setRightControlPointCoordinate(zr); }
                    dom = f;
                }
                dom->refiner().setGridMin(gridmin);
                dom->refiner().setMaxPoints(npmax);
                dom->refiner().setCriteria(ratio, slope, curve, prune);
                doms.push_back(dom);
                prof.push_back(x);
                isFlow.push_back(kind != 0);
            }
            sim = make_shared<Sim1D>(doms);
            for (size_t d = 0; d < nd; d++)
                for (size_t j = 0; j < prof[d].size(); j++)
                    for (size_t i = 0; i < prof[d][j].size(); i++)
                        sim->setValue(d, isFlow[d] ? (size_t)c_offset_T : i, j, prof[d][j][i]);
            ret = op == "F" ? sim->setFixedTemperature(tset) : sim->refine(0);
        } catch (std::exception& e) {
            err = e.what();
        }
        if (!sim) { std::cout << "X " << err.substr(0, 40).size() << std::endl; continue; }
        std::cout << (err.empty() ? "R " : "E ") << ret;
        for (size_t d = 0; d < nd; d++) {
            auto& D = *doms[d];
            std::cout << ' ' << D.nPoints();
            for (double z : D.grid()) std::cout << ' ' << z;
            for (size_t j = 0; j < D.nPoints(); j++)
                for (size_t i = 0; i < (isFlow[d] ? 1 : D.nComponents()); i++)
                    std::cout << ' ' << sim->value(d, isFlow[d] ? (size_t)c_offset_T : i, j);
            double zf = -1, tf = -1;
            if (auto f = std::dynamic_pointer_cast<Flow1D>(doms[d])) { zf = f->m_zfixed; tf = f->m_tfixed; }
            std::cout << ' ' << zf << ' ' << tf;
        }
        std::cout << '\n';
    }
}
