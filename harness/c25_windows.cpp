//PROPERTY C25
//WRAP GTK
//FLAGS -DG_DISABLE_CAST_CHECKS
//JOB open_state
//JOB open_state title={15,16,40,300}
//JOB history ops=3
//JOB history ops=4 slots=2
//JOB handler_changes
//JOB updates rounds=3 clock=1
//JOB updates rounds=3
//JOB moved_updates rounds=3 clock=1
//JOB moved_updates rounds=3
//JOB run_changes rounds=3
//JOB app_moves
//JOB history ops=4 slots=3 time=800 tier=thorough
//JOB history ops=5 slots=2 time=800 tier=thorough
//JOB updates rounds=6 time=800 tier=thorough
//JOB run_changes rounds=5 time=800 tier=thorough
//COVERS opened moved assigned closed refused reopened destroyed already_open event update closed_in_update opened_in_update moved_between_updates
//BOUNDS every history of 3 operations on 3 window objects and of 4 on 2 (open, show, move, move-assign, destroy, close, close request of the user, resize and key events, every close decision), titles of up to 3 arbitrary bytes and of 15, 16, 40 and 300 bytes with three arbitrary ones, every clock reading, 3 rounds of the main loop; thorough: 4 and 5 operations, 6 rounds
//OUTSIDE close() on a window that was never shown, which GTK ignores; other long titles; the Windows and macOS back ends, which do not compile here
//ASSUME GTK is modelled (harness/guimodel.h): connected handlers are called with the native window, a close request destroys the window if the handler returns FALSE
#include "guimodel.h"
#include <cmath>
#include <new>
using namespace cmp;

struct win;
struct seen { int down, up, resize, close, update; double delta, total; };
static void *slot_at[4];
static seen got[4];
static seen stray;
static bool refuse;             // what the close handler decides
static void (*in_close)(window *);
static void (*in_update)(window *);
static seen &rec(const void *p) {
    for (unsigned i = 0; i < 4; i++) if (slot_at[i] == p) return got[i];
    return stray;
}
struct win : window {
    using window::window;
    win(win &&) = default;
    win &operator=(win &&) = default;
    void handle_key_down_event(key_event &) override { rec(this).down++; }
    void handle_key_up_event(key_event &) override { rec(this).up++; }
    void handle_resize_event() override { rec(this).resize++; }
    void handle_close_event(close_event &e) override {
        rec(this).close++;
        if (in_close) in_close(this);
        if (refuse) e.set_should_close(false);
    }
    void update(double d, double t) override {
        seen &s = rec(this);
        s.update++; s.delta = d; s.total = t;
        if (in_update) in_update(this);
    }
};
alignas(win) static unsigned char room[4][sizeof(win)];
static win &W(unsigned i) { return *(win *)room[i]; }
static void forget() { for (auto &g : got) g = seen{}; stray = seen{}; }
static int total_events(const seen &s) { return s.down + s.up + s.resize + s.close + s.update; }
static int native_of(unsigned i) {
    auto *p = W(i).grab_native_handle().gtk_application_window;
    if (!p) return -1;
    for (unsigned n = 0; n < GMAX; n++) if ((void *)p == &g_win[n]) return (int)n;
    return -2;
}
static void make(unsigned i) { slot_at[i] = room[i]; new (room[i]) win{3, 4, u8"t", window_mode::standard}; }

// reference
static bool alive[4];
static int own[4]; // native window of each object, -1: closed
static void check_world(unsigned slots) {
    unsigned n_open = 0;
    for (unsigned i = 0; i < slots; i++) if (alive[i]) {
        symx_assert(native_of(i) == own[i], "the object holds its native window, and none when it is closed");
        if (own[i] >= 0) n_open++;
    }
    symx_assert(g_count_live() == n_open, "exactly the windows of the open objects exist");
    for (unsigned n = 0; n < GMAX; n++) if (g_win[n].live) {
        int o = -1;
        for (unsigned i = 0; i < slots; i++) if (alive[i] && own[i] == (int)n) o = (int)i;
        symx_assert(o >= 0, "every native window belongs to an object");
        if (o < 0) return;
        forget();
        g_fire_resize(n, true);
        g_fire_resize(n, false);
        g_fire_key(n, true, 'a');
        g_fire_key(n, false, 'a');
        symx_assert(got[o].resize == 2 && got[o].down == 1 && got[o].up == 1 && got[o].close == 0 && got[o].update == 0, "events reach the window object they belong to");
        for (unsigned i = 0; i < 4; i++) symx_assert((int)i == o || total_events(got[i]) == 0, "events reach no other window object");
        symx_assert(total_events(stray) == 0, "events reach no object that is not there");
        symx_cover("event");
    }
}

ENTRY open_state() {
    desktop_gui_application a{0, nullptr};
    symx_assert(dgui_app() == &a && app() == &a, "the application object is found");
    int w = sym<int>("w"), h = sym<int>("h");
    unsigned mode = choose(3, "mode"), longest = symx_param("title", 3), len = longest > 3 ? longest : choose(4, "len");
    std::u8string title;
    for (unsigned i = 0; i < len; i++) {
        unsigned char c = 'a' + i % 26;
        if (len < 4 || i == 1 || i == len / 2 || i + 1 == len) { c = sym<unsigned char>("c"); symx_assume(c != 0); }
        title.push_back(c);
    }
    {
        window o{w, h, title, mode == 0 ? window_mode::standard : mode == 1 ? window_mode::maximized : window_mode::minimized};
        symx_assert(g_count_live() == 1 && g_win[0].live, "one native window");
        symx_assert((void *)o.grab_native_handle().gtk_application_window == &g_win[0], "the handle is the native window");
        symx_assert(g_win[0].w == w && g_win[0].h == h && g_win[0].state == (int)mode, "size and mode are the ones asked for");
        symx_assert(o.get_title() == title, "the title is the one asked for");
        o.set_title(u8"xy");
        symx_assert(o.get_title() == u8"xy", "the title is the last one set");
        symx_assert(!g_win[0].visible, "a window is shown on request only");
        o.show();
        symx_assert(g_win[0].visible, "show shows the window");
        o.show();
        symx_assert(g_win[0].visible, "show of a shown window changes nothing");
        o.hide();
        symx_assert(!g_win[0].visible, "hide hides the window");
        symx_assert(!o.open(1, 2, u8"no", window_mode::maximized), "an open window is not opened again");
        symx_assert(g_count_live() == 1 && g_win[0].w == w && g_win[0].h == h && g_win[0].state == (int)mode && o.get_title() == u8"xy", "a refused open changes nothing");
        symx_cover("already_open");
    }
    symx_assert(g_count_live() == 0, "a destroyed window object leaves no native window");
}

ENTRY history() {
    desktop_gui_application a{0, nullptr};
    unsigned slots = symx_param("slots", 3), ops = symx_param("ops", 3);
    int next = 0;
    for (auto &o : own) o = -1;
    make(0); alive[0] = true; own[0] = next++; W(0).show();
    if (choose(2, "second")) { make(1); alive[1] = true; own[1] = next++; W(1).show(); }
    check_world(slots);
    for (unsigned k = 0; k < ops; k++) {
        unsigned op = choose(7, "op"), i = choose(slots, "i");
        refuse = false;
        if (op == 0) {
            if (alive[i]) return;
            make(i); alive[i] = true; own[i] = next++; W(i).show();
        } else if (op == 1 || op == 2) {
            unsigned j = choose(slots, "j");
            if (i == j || !alive[j] || alive[i] == (op == 1)) return;
            if (op == 1) {
                slot_at[i] = room[i];
                new (room[i]) win{std::move(W(j))};
                alive[i] = true;
                symx_cover("moved");
            } else {
                refuse = choose(2, "refuse");
                W(i) = std::move(W(j));
                symx_cover("assigned");
            }
            own[i] = own[j];
            own[j] = -1;
        } else if (op == 3) {
            if (!alive[i]) return;
            W(i).~win();
            slot_at[i] = nullptr;
            alive[i] = false; own[i] = -1;
            symx_cover("destroyed");
        } else if (op == 4) {
            if (!alive[i]) return;
            bool r = W(i).open(1, 1, u8"", window_mode::standard);
            symx_assert(r == (own[i] < 0), "open opens a closed window and refuses an open one");
            if (own[i] < 0) { own[i] = next++; W(i).show(); symx_cover("reopened"); }
        } else { // close() or the user's close request
            if (!alive[i]) return;
            refuse = choose(2, "refuse");
            forget();
            if (op == 5) W(i).close();
            else if (own[i] >= 0) gtk_window_close((GtkWindow *)&g_win[own[i]]);
            else return;
            symx_assert(got[i].close == (own[i] >= 0), "the close handler of an open window is asked once");
            for (unsigned q = 0; q < 4; q++) symx_assert(q == i || got[q].close == 0, "no other window is asked");
            if (own[i] >= 0 && !refuse) { own[i] = -1; symx_cover("closed"); }
            else if (own[i] >= 0) symx_cover("refused");
        }
        check_world(slots);
    }
    symx_cover("opened");
}

// the close handler itself opens, moves or closes windows
static unsigned action;
ENTRY handler_changes() {
    desktop_gui_application a{0, nullptr};
    for (auto &o : own) o = -1;
    make(0); alive[0] = true; own[0] = 0; W(0).show();
    make(1); alive[1] = true; own[1] = 1; W(1).show();
    action = choose(6, "action");
    bool no = choose(2, "refuse");
    unsigned which = choose(2, "which");
    in_close = [](window *w) {
        unsigned i = (void *)w == room[0] ? 0 : 1, j = !i;
        if (action == 1) { in_close = nullptr; make(2); alive[2] = true; own[2] = 2; W(2).show(); }
        else if (action == 2) { make(2); alive[2] = true; own[2] = 2; W(2).show(); make(3); alive[3] = true; own[3] = 3; W(3).show(); }
        else if (action == 3) { in_close = nullptr; bool r = refuse; refuse = false; W(j).close(); own[j] = -1; refuse = r; }
        else if (action == 4) { slot_at[2] = room[2]; new (room[2]) win{std::move(W(i))}; alive[2] = true; own[2] = own[i]; own[i] = -1; }
        else if (action == 5) W(i).close(); // already closing: GTK ignores it
    };
    refuse = no;
    gtk_window_close((GtkWindow *)&g_win[which]);
    in_close = nullptr;
    if (!no) for (auto &o : own) if (o == (int)which) o = -1;
    check_world(4);
}

static bool near(double x, double y) { return __builtin_bit_cast(unsigned long, x) == __builtin_bit_cast(unsigned long, y) || std::fabs(x - y) <= 1e-9 * (1 + std::fabs(y)); }
static unsigned rounds_left;
static unsigned readings;
static long any_clock(long last) { long t = sym<long>("now"); symx_assume(t >= last && t < 1l << 50); return t; }
static long steady_clock_250(long last) { return last + 250000000l * (long)(++readings) + readings; } // cheap to decide
static auto clock_of(long which) -> long (*)(long) { return which ? steady_clock_250 : any_clock; }
static long opened_at[4], updated_at[4];
static void check_update(window *w) {
    unsigned i = 9;
    for (unsigned q = 0; q < 4; q++) if (slot_at[q] == (void *)w) i = q;
    symx_assert(i < 4, "only existing windows are updated");
    if (i >= 4) return;
    symx_assert(near(got[i].delta, (double)(g_now - updated_at[i]) / 1e9), "the first time is measured from the last update");
    symx_assert(near(got[i].total, (double)(g_now - opened_at[i]) / 1e9), "the second time is measured from opening");
    updated_at[i] = g_now;
    symx_cover("update");
}
static void user_closes_one() {
    for (unsigned n = 0; n < GMAX; n++) if (g_win[n].live) {
        for (unsigned q = 0; q < 4; q++) if (own[q] == (int)n) own[q] = -1;
        gtk_window_close((GtkWindow *)&g_win[n]);
        return;
    }
}
ENTRY updates() {
    desktop_gui_application a{0, nullptr};
    g_clock = clock_of(symx_param("clock", 0));
    unsigned n = 1 + choose(2, "n"), rounds = symx_param("rounds", 3), moved = choose(2, "move");
    for (unsigned i = 0; i < n; i++) { make(i); W(i).show(); opened_at[i] = updated_at[i] = g_now; }
    in_update = check_update;
    g_pending = [] { if (rounds_left == 0) return true; rounds_left--; return false; };
    g_dispatch = user_closes_one;
    for (unsigned part = 0; part < 2; part++) {
        forget();
        rounds_left = rounds;
        if (part == 1) { // opening again starts again
            for (unsigned i = 0; i < n; i++) {
                symx_assert(W(i).open(1, 1, u8"", window_mode::standard), "a closed window can be opened");
                W(i).show();
                opened_at[i] = updated_at[i] = g_now;
            }
            if (moved) { // the times move along with the window
                slot_at[3] = room[3];
                new (room[3]) win{std::move(W(0))};
                if (choose(2, "back")) W(0) = std::move(W(3));
                else opened_at[3] = opened_at[0], updated_at[3] = updated_at[0];
            }
        }
        symx_assert(a.run() == 0, "run returns 0");
        int sum = 0;
        for (auto &g : got) { symx_assert(g.update == 0 || g.update == (int)rounds, "every open window is updated in every round"); sum += g.update; }
        symx_assert(sum == (int)(rounds * n) && stray.update == 0, "every open window is updated in every round, and nothing else");
        if (part == 0 && !moved) return;
    }
}

// a window moved between two updates goes on with its times
static unsigned move_before, move_kind;
ENTRY moved_updates() {
    desktop_gui_application a{0, nullptr};
    g_clock = clock_of(symx_param("clock", 0));
    make(0); W(0).show(); opened_at[0] = updated_at[0] = g_now; own[0] = 0;
    make(1); W(1).show(); opened_at[1] = updated_at[1] = g_now; own[1] = 1;
    rounds_left = symx_param("rounds", 3);
    unsigned rounds = rounds_left;
    move_before = choose(rounds, "when");
    move_kind = choose(2, "kind");
    in_update = check_update;
    g_dispatch = user_closes_one;
    g_pending = [] {
        if (rounds_left == 0) return true;
        if (rounds_left == move_before) {
            if (move_kind == 0) { slot_at[2] = room[2]; new (room[2]) win{std::move(W(0))}; opened_at[2] = opened_at[0]; updated_at[2] = updated_at[0]; }
            else { W(1) = std::move(W(0)); opened_at[1] = opened_at[0]; updated_at[1] = updated_at[0]; }
            symx_cover("moved_between_updates");
        }
        rounds_left--;
        return false;
    };
    symx_assert(a.run() == 0, "run returns 0");
    int before = move_before ? (int)(rounds - move_before) : (int)rounds, after = (int)rounds - before;
    symx_assert(got[0].update == before && got[1].update == (int)rounds && got[2].update == (move_kind == 0 ? after : 0), "every open window is updated in every round");
}

// the main loop: updates and events in any order, updates that open and close windows
static int closer = -1, opener = -1, extra;
ENTRY run_changes() {
    desktop_gui_application a{0, nullptr};
    rounds_left = symx_param("rounds", 3);
    for (auto &o : own) o = -1;
    for (unsigned i = 0; i < 2; i++) { make(i); alive[i] = true; own[i] = (int)i; W(i).show(); }
    closer = (int)choose(3, "closer") - 1;  // which window closes itself in its update
    opener = (int)choose(3, "opener") - 1;  // which one opens two more
    in_update = [](window *w) {
        unsigned i = 9;
        for (unsigned q = 0; q < 4; q++) if (slot_at[q] == (void *)w) i = q;
        symx_assert(i < 4 && alive[i] && own[i] >= 0, "only open windows are updated");
        if ((int)i == opener && !extra) {
            extra = 1;
            for (unsigned q = 2; q < 4; q++) { make(q); alive[q] = true; own[q] = (int)q; W(q).show(); }
            symx_cover("opened_in_update");
        }
        if ((int)i == closer) { closer = -1; W(i).close(); own[i] = -1; symx_cover("closed_in_update"); }
    };
    forget();
    g_pending = [] { if (rounds_left == 0) return true; rounds_left--; return choose(2, "pending") == 1; };
    g_dispatch = user_closes_one;
    int r = a.run();
    symx_assert(r == 0, "run returns 0");
    symx_assert(g_count_live() == 0, "run returns when the last window is closed");
    symx_assert(total_events(stray) == 0, "no object that is not there is called");
    check_world(4);
}

ENTRY app_moves() {
    {
        desktop_gui_application a{1, nullptr};
        make(0);
        W(0).show();
        desktop_gui_application b{std::move(a)};
        symx_assert(dgui_app() == &b, "the application moved along");
        for (auto &o : own) o = -1;
        alive[0] = true; own[0] = 0;
        check_world(4);
        make(1); alive[1] = true; own[1] = 1;
        check_world(4);
        W(0).close(); own[0] = -1;
        check_world(4);
        a = std::move(b); // and back by assignment
        symx_assert(dgui_app() == &a && app() == &a, "the application moved back");
        check_world(4);
        make(2); alive[2] = true; own[2] = 2;
        check_world(4);
        W(2).~win(); W(1).~win(); W(0).~win();
    }
    symx_assert(g_app[0].refs == 0, "the native application is released");
}
