PROPERTY = 'P16'
NEEDS = 'an insertion at the front of a vector of exactly two elements'
BREAKS = 'inserting into a vector of two elements does not move the first one up: the last element appears twice and the first is lost'
EDITS = [('include/papilio/container.hpp', """        if(size() > 2)
        {
            for(iterator it = end() - 2; it != pos; --it)""", """        if(size() > 3)
        {
            for(iterator it = end() - 2; it != pos; --it)""")]
DEMO = r'''#include <papilio/container.hpp>
#include <string>
int main() {
    papilio::fixed_vector<std::string, 8> v;
    v.push_back("b"); v.push_back("c");
    v.insert(v.begin(), "a");
    if(v.size() != 3 || v[0] != "a" || v[1] != "b" || v[2] != "c") return 1;
    v.insert(v.begin() + 1, "x");
    if(v.size() != 4 || v[0] != "a" || v[1] != "x" || v[2] != "b" || v[3] != "c") return 2;
}
'''
SRCS = ['container']
