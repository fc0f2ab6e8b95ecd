// intrusive_list against an ideal sequence.  params: 0 number of operations, 1 items linked before
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/intrusive_list.h>
using namespace cachelot;
struct Node { uint32_t pad; intrusive_list_node link; uint32_t val; };
typedef intrusive_list<Node, &Node::link> List;
static const unsigned N = 5; static Node node[N]; static List l; static unsigned seq[N], len; static bool in(unsigned i) { for (unsigned j = 0; j < len; ++j) if (seq[j] == i) return true; return false; }
static void del(unsigned i) { unsigned k = 0; for (unsigned j = 0; j < len; ++j) if (seq[j] != i) seq[k++] = seq[j]; len = k; }
static void agree() { // forward by popping a copy is impossible: walk the links
    vs_check(l.empty() == (len == 0), "empty"); if (len) { vs_check(l.front() == &node[seq[0]], "front is not the first item"); vs_check(l.back() == &node[seq[len - 1]], "back is not the last item"); intrusive_list_node* p = &node[seq[0]].link; for (unsigned j = 0; j + 1 < len; ++j) { vs_check(p->next == &node[seq[j + 1]].link, "order of the list"); vs_check(p->next->prev == p, "back link of the list"); p = p->next; } }
    for (unsigned i = 0; i < N; ++i) if (in(i)) vs_check(l.has(&node[i]), "linked item is not in the list");
    if (len) { vs_check(l.is_head(&node[seq[0]]), "is_head"); if (len > 1) vs_check(!l.is_head(&node[seq[1]]), "is_head"); }
}
void vs_main() {
    for (unsigned i = 0; i < N; ++i) { node[i].link.next = node[i].link.prev = &node[i].link; node[i].val = vs_u32("content"); }
    uint32_t keep[N]; for (unsigned i = 0; i < N; ++i) keep[i] = node[i].val; unsigned n = (unsigned)vs_param(0); for (unsigned i = 0; i < (unsigned)vs_param(1); ++i) { l.push_back(&node[i]); seq[len++] = i; }
    for (unsigned s = 0; s < n; ++s) {
        unsigned op = vs_choose(6, "op"), i = (unsigned)vs_range(0, N - 1, "item");
        switch (op) {
        case 0: if (in(i)) return; l.push_front(&node[i]); for (unsigned j = len; j > 0; --j) seq[j] = seq[j - 1]; seq[0] = i; ++len; break;
        case 1: if (in(i)) return; l.push_back(&node[i]); seq[len++] = i; break;
        case 2: { if (!len || i) return; Node* p = l.pop_front(); vs_check(p == &node[seq[0]], "pop_front"); del(seq[0]); break; }
        case 3: { if (!len || i) return; Node* p = l.pop_back(); vs_check(p == &node[seq[len - 1]], "pop_back"); del(seq[len - 1]); break; }
        case 4: if (!in(i)) return; if (vs_choose(2, "how")) l.remove(&node[i]); else List::unlink(&node[i]); del(i); break;
        case 5: { if (!in(i)) return; unsigned at = 0; while (seq[at] != i) ++at; l.move_front(&node[i]); // towards the front, the others keep their order
                unsigned now = 0; intrusive_list_node* p = &l.front()->link; while (p != &node[i].link && now < len) { p = p->next; ++now; } vs_check(now < len, "moved item is lost"); vs_check(at == 0 ? now == 0 : now < at, "move_front does not move the item towards the front"); if (now >= len) return; del(i); for (unsigned j = len; j > now; --j) seq[j] = seq[j - 1]; seq[now] = i; ++len; break; }
        }
        agree();
    }
    for (unsigned i = 0; i < N; ++i) vs_check(node[i].val == keep[i], "list changes the items"); vs_cover("end");
}
