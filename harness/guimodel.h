// A model of the parts of GTK that the desktop GUI package uses.  Native
// windows, key controllers and the application are records in fixed pools;
// signal handlers are recorded when they are connected and called by the
// harness.  Every use of a destroyed native object is a violation.
#pragma once
#include "symx.h"
#include <cmp/core/definitions.cpp>
#include <cmp/desktop_gui/definitions.cpp>
#include <cmp/desktop_gui/window.hpp>

struct gsig { GCallback fn; gpointer data; };
struct gwin {
    bool used, live, realized, visible, closing;
    int w, h, state; // state: 0 standard, 1 maximized, 2 minimized
    char title[320];
    gsig close, width, height;
    GtkApplication *app;
};
struct gctl { bool used; int owner; gsig down, up; };
struct gapp { bool used; int refs; };
static const unsigned GMAX = 6;
static gwin g_win[GMAX];
static gctl g_ctl[GMAX];
static gapp g_app[3];
static long g_now = 1000;        // nanoseconds
static long (*g_clock)(long);     // the next reading of the clock
static bool (*g_pending)();
static void (*g_dispatch)();

static gwin *g_find(const void *p) {
    if (!p) return nullptr; // GTK logs a complaint and does nothing
    for (unsigned i = 0; i < GMAX; i++) if (p == &g_win[i]) {
        symx_assert(g_win[i].live, "no destroyed native window is used");
        return g_win[i].live ? &g_win[i] : nullptr;
    }
    symx_assert(0, "no stray pointer is used as a native window");
    return nullptr;
}
static unsigned g_count_live() { unsigned n = 0; for (auto &w : g_win) n += w.live; return n; }
static bool g_same(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }

std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
    if (g_clock) g_now = g_clock(g_now);
    return std::chrono::steady_clock::time_point{std::chrono::nanoseconds{g_now}};
}
extern "C" {
GtkApplication *gtk_application_new(const char *, GApplicationFlags) {
    for (auto &a : g_app) if (!a.used) { a.used = true; a.refs = 1; return (GtkApplication *)&a; }
    symx_unsupported("too many applications");
    return nullptr;
}
gulong g_signal_connect_data(gpointer p, const gchar *name, GCallback fn, gpointer data, GClosureNotify, GConnectFlags) {
    gsig s{fn, data};
    for (auto &a : g_app) if (p == &a) return 1;
    for (auto &c : g_ctl) if (p == &c) {
        if (g_same(name, "key-pressed")) c.down = s;
        else if (g_same(name, "key-released")) c.up = s;
        return 1;
    }
    gwin *w = g_find(p);
    if (!w) return 0;
    if (g_same(name, "close-request")) w->close = s;
    else if (g_same(name, "notify::default-width")) w->width = s;
    else if (g_same(name, "notify::default-height")) w->height = s;
    return 1;
}
gboolean g_application_register(GApplication *, GCancellable *, GError **) { return TRUE; }
void g_application_activate(GApplication *) {}
void g_object_unref(gpointer p) {
    for (auto &a : g_app) if (p == &a) { symx_assert(a.refs > 0, "the native application is released once"); a.refs--; return; }
    symx_assert(p != nullptr, "no null pointer is released");
    if (p) symx_unsupported("unref of another object");
}
GtkWidget *gtk_application_window_new(GtkApplication *app) {
    bool ok = false;
    for (auto &a : g_app) if ((void *)app == &a) ok = a.refs > 0;
    symx_assert(ok, "windows belong to a live native application");
    for (auto &w : g_win) if (!w.used) { w.used = w.live = true; w.app = app; return (GtkWidget *)&w; }
    symx_unsupported("too many windows");
    return nullptr;
}
void gtk_window_set_title(GtkWindow *p, const char *t) {
    gwin *w = g_find(p);
    if (!w) return;
    unsigned i = 0;
    for (; t[i] && i < 319; i++) w->title[i] = t[i];
    if (t[i]) symx_unsupported("long title");
    w->title[i] = 0;
}
const char *gtk_window_get_title(GtkWindow *p) { gwin *w = g_find(p); return w ? w->title : nullptr; }
void gtk_window_set_default_size(GtkWindow *p, int x, int y) { if (gwin *w = g_find(p)) w->w = x, w->h = y; }
void gtk_window_maximize(GtkWindow *p) { if (gwin *w = g_find(p)) w->state = 1; }
void gtk_window_minimize(GtkWindow *p) { if (gwin *w = g_find(p)) w->state = 2; }
void gtk_window_present(GtkWindow *p) { if (gwin *w = g_find(p)) w->realized = w->visible = true; }
gboolean gtk_widget_is_visible(GtkWidget *p) { gwin *w = g_find(p); return w && w->visible; }
void gtk_widget_set_visible(GtkWidget *p, gboolean v) { if (gwin *w = g_find(p)) { w->visible = v; if (v) w->realized = true; } }
void gtk_window_destroy(GtkWindow *p) {
    if (!p) return;
    if (gwin *w = g_find(p)) w->live = w->visible = w->realized = false;
}
void gtk_window_close(GtkWindow *p) {
    gwin *w = g_find(p);
    if (!w || !w->realized || w->closing) return;
    w->closing = true;
    gboolean stop = w->close.fn ? ((gboolean(*)(GtkWindow *, gpointer))w->close.fn)(p, w->close.data) : FALSE;
    w->closing = false;
    if (!stop) w->live = w->visible = w->realized = false;
}
GtkEventController *gtk_event_controller_key_new() {
    for (auto &c : g_ctl) if (!c.used) { c.used = true; c.owner = -1; return (GtkEventController *)&c; }
    symx_unsupported("too many controllers");
    return nullptr;
}
void gtk_widget_add_controller(GtkWidget *p, GtkEventController *c) { if (gwin *w = g_find(p)) ((gctl *)c)->owner = (int)(w - g_win); }
GtkWidget *gtk_event_controller_get_widget(GtkEventController *c) { gctl *k = (gctl *)c; return k->owner < 0 ? nullptr : (GtkWidget *)&g_win[k->owner]; }
GListModel *gtk_window_get_toplevels() { return (GListModel *)g_win; }
guint g_list_model_get_n_items(GListModel *m) { symx_assert((void *)m == g_win, "the list of windows"); return g_count_live(); }
GMainContext *g_main_context_default() { return (GMainContext *)&g_now; }
gboolean g_main_context_pending(GMainContext *) { return g_pending && g_pending(); }
void g_main_context_dispatch(GMainContext *) { if (g_dispatch) g_dispatch(); }
}

// what the user and the window system do
static void g_fire_key(unsigned win, bool down, unsigned keyval) {
    for (auto &c : g_ctl) if (c.used && c.owner == (int)win) {
        gsig s = down ? c.down : c.up;
        symx_assert(s.fn != nullptr, "key events of every window are connected");
        if (s.fn) ((gboolean(*)(GtkEventControllerKey *, guint, guint, GdkModifierType, gpointer))s.fn)((GtkEventControllerKey *)&c, keyval, 0, (GdkModifierType)0, s.data);
    }
}
static void g_fire_resize(unsigned win, bool width) {
    gsig s = width ? g_win[win].width : g_win[win].height;
    symx_assert(s.fn != nullptr, "resize events of every window are connected");
    if (s.fn) ((void (*)(GtkWidget *, GParamSpec *, gpointer))s.fn)((GtkWidget *)&g_win[win], nullptr, s.data);
}
