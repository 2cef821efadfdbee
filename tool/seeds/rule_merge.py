property='P18'; file='src/Rule.cc'
old='''                case RuleEntry::MdType::Short:
                    addShort(m.first, static_cast<Tr>(m.second->loc));
                    break;

                case RuleEntry::MdType::Index:
                    addIndex(m.first);
                    break;
'''
new='''                case RuleEntry::MdType::Index:
                    addIndex(m.first);
                    break;
'''
needs='merging a rule set that has a 16-bit quantity'
what='the merged rule set lacks the 16-bit quantities'
main=r'''
#include "ExSeisDat/PIOL/Rule.hh"
using namespace exseis::PIOL;
int main() {
    Rule a(std::initializer_list<Meta>{PIOL_META_il}, true), b(std::initializer_list<Meta>{PIOL_META_ns, PIOL_META_xl}, true);
    a.addRule(b);
    return a.numShort == 1 && a.numLong == 2 && a.translate.count(PIOL_META_ns) ? 0 : 1;
}
'''
