// The windows: the real main window, driven as a user would, against the real board.
#include <algorithm>
#include <deque>
#include <optional>

#include <fcntl.h>
#include <sys/stat.h>

#include <QAbstractItemView>
#include <QAction>
#include <QApplication>
#include <QComboBox>
#include <QDialogButtonBox>
#include <QElapsedTimer>
#include <QFileDialog>
#include <QGraphicsSimpleTextItem>
#include <QLabel>
#include <QLineEdit>
#include <QMenu>
#include <QPaintEngine>
#include <QStyleOptionGraphicsItem>
#include <QMessageBox>
#include <QPointer>
#include <QProgressBar>
#include <QProcess>
#include <QPushButton>
#include <QStandardItemModel>
#include <QStatusBar>
#include <QTableView>
#include <QTest>
#include <QTimer>
#include <QToolButton>

#include "app/openemsh.hpp"
#include "domain/geometrics/space.hpp"
#include "infra/serializers/serializer_to_csx.hpp"
#include "ui/cli/logger.hpp"
#include "ui/qt/data_keys.hpp"
#include "ui/qt/edit/edit_dialog.hpp"
#include "ui/qt/logger.hpp"
#include "ui/qt/main_window.hpp"
#include "ui/qt/progress.hpp"
#include "ui/qt/processing_view/processing_axis.hpp"
#include "ui/qt/processing_view/processing_plane.hpp"
#include "ui/qt/processing_view/processing_scene.hpp"
#include "ui/qt/processing_view/processing_view.hpp"
#include "ui/qt/structure_view/structure_scene.hpp"
#include "ui/qt/structure_view/structure_view.hpp"
#include "ui/qt/utils/nodegraph/container.hpp"
#include "ui/qt/utils/nodegraph/node.hpp"
#include "ui/qt/utils/nodegraph/port.hpp"
#include "ui/qt/utils/nodegraph/text.hpp"

#include "session.hpp"

using namespace vf;
using namespace std::string_literals;
using ui::qt::ProcessingScene;
using ui::qt::StructureScene;
namespace keys = ui::qt::DataKeys;
namespace ng = ui::qt::nodegraph;

namespace {

//------------------------------------------------------------------------ window
// The window lives as long as the process, as the application's does.
struct Win {
	app::OpenEMSH oemsh;
	ui::qt::MainWindow w;
	ui::qt::ProcessingView* pv;
	ui::qt::StructureView* sv;
	Win() : oemsh(make_app("", "")), w(oemsh), pv(w.findChild<ui::qt::ProcessingView*>("processing_view")), sv(w.findChild<ui::qt::StructureView*>("structure_view")) {
		w.setWindowState(Qt::WindowNoState);
		w.resize(900, 600);
		w.show();
	}
	QAction* a(char const* n) { auto* p = w.findChild<QAction*>(n); if(!p) { std::cerr << "no action " << n << "\n"; _exit(3); } return p; }
	QToolButton* tb(char const* n) { auto* p = w.findChild<QToolButton*>(n); if(!p) { std::cerr << "no button " << n << "\n"; _exit(3); } return p; }
	ProcessingScene* ps() { return static_cast<ProcessingScene*>(pv->scene()); }
	StructureScene* ss() { return static_cast<StructureScene*>(sv->scene()); }
	domain::Board const& board() { return oemsh.get_board(); }
};
Win* W = nullptr;

void settle() { QApplication::processEvents(); }

//------------------------------------------------------------------------- robot
// Answers the dialogs that open during an action, in order.
struct Robot : QTimer {
	Ctx* c = nullptr;
	struct Step { std::string what; std::function<bool (QWidget*)> does; };
	std::deque<Step> script;
	bool busy = false;
	QPointer<QWidget> accepted;
	QElapsedTimer since;
	std::string seen;

	Robot() {
		setInterval(0);
		// Not from within the timer, that would not fire again meanwhile.
		QObject::connect(this, &QTimer::timeout, [this] { QTimer::singleShot(0, this, [this] { if(isActive()) poll(); }); });
	}
	void poll() {
		if(busy) return;
		QWidget* d = QApplication::activePopupWidget();
		if(!d) d = QApplication::activeModalWidget();
		if(!d || !d->isVisible()) return;
		if(d == accepted && since.elapsed() < 5000) return; // It is closing.
		busy = true;
		if(script.empty()) {
			std::string text = d->metaObject()->className();
			if(auto const* m = qobject_cast<QMessageBox*>(d)) text += ": " + m->text().toStdString();
			c->fail("unexpected-dialog", cat("a dialog opens that nothing asked for: ", text));
			dismiss(d);
		} else {
			auto s = script.front();
			script.pop_front();
			if(!s.does(d)) {
				std::string text = d->metaObject()->className();
				if(auto const* m = qobject_cast<QMessageBox*>(d)) text += ": " + m->text().toStdString();
				c->fail("wrong-dialog", cat("expected: ", s.what, "; got ", text));
				dismiss(d);
			}
		}
		busy = false;
	}
	static void dismiss(QWidget* d) {
		if(auto* q = qobject_cast<QDialog*>(d)) q->reject();
		else d->close();
	}
	// A message box saying text, answered with button.
	void expect(std::string what, QString text, QMessageBox::StandardButton button) {
		script.push_back({ what, [this, text, button](QWidget* d) {
			auto* m = qobject_cast<QMessageBox*>(d);
			if(!m || !m->text().contains(text)) return false;
			seen = m->text().toStdString();
			auto* b = m->button(button);
			if(!b) { c->fail("no-choice", cat("a message box without the expected choice: ", seen)); return false; }
			c->count("message boxes answered");
			b->click();
			return true;
		} });
	}
	void expect_file_dialog(std::filesystem::path const& p, bool accept, bool replaces = false) {
		script.push_back({ "file dialog", [this, p, accept, replaces](QWidget* d) {
			auto* f = qobject_cast<QFileDialog*>(d);
			if(!f) return false;
			c->count("file dialogs");
			if(!accept) { f->reject(); return true; }
			auto* e = f->findChild<QLineEdit*>("fileNameEdit");
			if(!e) { std::cerr << "no file name edit\n"; _exit(3); }
			e->setText(QString::fromStdString(p.string()));
			busy = false; // The file dialog may ask in turn.
			accepted = f;
			since.start();
			if(replaces)
				script.push_front({ "file dialog's own question", [](QWidget* q) {
					auto* m = qobject_cast<QMessageBox*>(q);
					if(!m || !m->button(QMessageBox::Yes)) return false;
					m->button(QMessageBox::Yes)->click();
					return true;
				} });
			QMetaObject::invokeMethod(f, "accept");
			busy = true;
			return true;
		} });
	}
};
Robot* R = nullptr;

// An action, with what must have been asked during it.
void act(Ctx& c, std::function<void ()> const& f) {
	R->c = &c;
	R->start();
	f();
	settle();
	R->stop();
	if(!R->script.empty()) {
		c.fail("missing-dialog", cat("the user was not asked: ", R->script.front().what));
		R->script.clear();
	}
}

void open_file(Ctx& c, std::filesystem::path const& p) {
	R->expect_file_dialog(p, true);
	act(c, [] { W->a("a_file_open")->trigger(); });
}

//-------------------------------------------------------------------- expectations
// Which axis a plane's view has horizontally and vertically.
domain::Axis horizontal(domain::Plane p) { return p == domain::XY ? domain::X : p == domain::YZ ? domain::Y : domain::Z; }
domain::Axis vertical(domain::Plane p) { return p == domain::XY ? domain::Y : p == domain::YZ ? domain::Z : domain::X; }

std::string g6(double v) { return QString::number(v).toStdString(); }
char const* tf(bool b) { return b ? "true" : "false"; }

struct Shown { std::string where; std::vector<std::string> texts; std::set<std::size_t> inputs; };
using Dump = std::map<std::pair<std::string, std::size_t>, Shown>;

std::string str(Shown const& s) {
	std::string o = s.where + " {";
	for(auto const& t : s.texts) o += " '" + t + "'";
	o += " } inputs";
	for(auto i : s.inputs) o += cat(" ", i);
	return o;
}

// What the processing view has to show, from the board alone.
Dump expected_processing(domain::Board const& b) {
	using namespace domain;
	Dump d;
	std::set<std::size_t> ids; // Everything shown.
	static char const* const planes[] = { "Plane YZ", "Plane ZX", "Plane XY" };
	static char const* const axes[] = { "Axis X", "Axis Y", "Axis Z" };
	for(Plane p : AllPlane) {
		for(auto const& q : b.get_polygons(p)) {
			char const* type = "";
			switch(q->material->type) {
			case Material::Type::PORT: type = "PORT"; break;
			case Material::Type::CONDUCTOR: type = "CONDUCTOR"; break;
			case Material::Type::DIELECTRIC: type = "DIELECTRIC"; break;
			case Material::Type::AIR: type = "AIR"; break;
			}
			d[{ "Polygon", q->id }] = { planes[p], { cat("Type: ", type), cat("Priority: ", q->priority) }, {} };
			for(auto const& e : q->edges) {
				auto const& s = e->get_current_state();
				Shown x { cat("Polygon ", q->id), { cat("Normal: ", name(e->normal)), cat("To mesh: ", tf(s.to_mesh)), cat("To reverse: ", tf(s.to_reverse)) }, {} };
				if(s.conflict) x.inputs.insert(s.conflict->id);
				d[{ "Edge", e->id }] = x;
			}
		}
		for(auto const& k : b.get_conflicts_edge_in_polygons(p)) {
			Shown x { planes[p], {}, { k->edge->id } };
			for(auto const& [poly, range, edge] : k->get_current_state().overlaps) x.inputs.insert(poly->id);
			d[{ "ConflictEdgeInPolygon", k->id }] = x;
		}
		for(auto const& a : b.get_angles(p)) {
			auto const& s = a->get_current_state();
			d[{ "Angle", a->id }] = { planes[p], { "Angle (°): " + g6(a->angle.value()), cat("To mesh [H]: ", tf(s.to_mesh[H])), cat("To mesh [V]: ", tf(s.to_mesh[V])) }, { a->e0->id, a->e1->id } };
		}
	}
	for(Axis a : AllAxis) {
		for(auto const& k : b.get_conflicts_colinear_edges(a)) {
			Shown x { axes[a], {}, {} };
			for(auto const* e : k->get_current_state().edges) x.inputs.insert(e->id);
			d[{ "ConflictColinearEdges", k->id }] = x;
		}
		for(auto const& k : b.get_conflicts_too_close_meshline_policies(a))
			d[{ "ConflictTooCloseMeshlinePolicies", k->id }] = { axes[a], {}, { k->meshline_policies[0]->id, k->meshline_policies[1]->id } };
		for(auto const& p : b.get_meshline_policies(a)) {
			auto const& s = p->get_current_state();
			Shown x { axes[a], { cat("Normal: ", name(s.normal)), cat("Is enabled: ", tf(s.is_enabled)), cat("Policy: ", name(s.policy)), "d: " + g6(s.d) }, {} };
			for(auto const* o : s.origins) {
				if(auto const* e = dynamic_cast<Edge const*>(o)) x.inputs.insert(e->id);
				else if(auto const* e = dynamic_cast<Angle const*>(o)) x.inputs.insert(e->id);
				else if(auto const* e = dynamic_cast<ConflictColinearEdges const*>(o)) x.inputs.insert(e->id);
				else if(auto const* e = dynamic_cast<ConflictTooCloseMeshlinePolicies const*>(o)) x.inputs.insert(e->id);
			}
			d[{ "MeshlinePolicy", p->id }] = x;
		}
		for(auto const& k : b.get_conflicts_diagonal_or_circular_zones(a)) {
			auto const& s = k->get_current_state();
			Shown x { axes[a], { "dmax: " + g6(s.dmax), cat("lmin: ", s.lmin), "Minimal angle (°): " + g6(s.minimal_angle) }, {} };
			for(auto const* g : s.angles) x.inputs.insert(g->id);
			d[{ "ConflictDiagonalOrCircularZone", k->id }] = x;
		}
		for(auto const& i : b.get_intervals(a)) {
			auto const& s = i->get_current_state();
			Shown x { axes[a], { "dmax: " + g6(s.dmax), cat("Before.lmin: ", s.before.lmin), "Before.Smoothness: " + g6(s.before.smoothness), cat("After.lmin: ", s.after.lmin), "After.Smoothness: " + g6(s.after.smoothness) }, {} };
			x.inputs.insert(s.before.meshline_policy->id);
			x.inputs.insert(s.after.meshline_policy->id);
			for(auto* k : s.conflicts) if(auto const* z = dynamic_cast<ConflictDiagonalOrCircularZone*>(k)) x.inputs.insert(z->id);
			d[{ "Interval", i->id }] = x;
		}
		for(auto const& m : b.get_meshlines(a)) {
			Shown x { axes[a], { "Coord: " + QString::number(m->coord.value(), 'f', 6).toStdString() }, {} };
			if(m->interval) x.inputs.insert(m->interval->id);
			if(m->policy) x.inputs.insert(m->policy->id);
			d[{ "Meshline", m->id }] = x;
		}
	}
	for(auto const& [k, v] : d) ids.insert(k.second);
	for(auto& [k, v] : d) {
		std::erase_if(v.inputs, [&](auto i) { return !ids.contains(i); });
		std::ranges::sort(v.texts);
	}
	return d;
}

std::string where(ng::Node const* n) {
	auto* const k = n->get_surrounding_container();
	if(!k) return "nowhere";
	auto const type = k->data(keys::TYPE).toString().toStdString();
	return type + " " + (type == "Polygon" ? std::to_string(k->data(keys::ID).toULongLong()) : k->data(keys::NAME).toString().toStdString());
}

std::vector<ng::Node*> nodes_of(ProcessingScene* s) {
	std::vector<ng::Node*> o;
	for(auto* i : s->items())
		if(auto* n = dynamic_cast<ng::Node*>(i); n && n->data(keys::ID).isValid()) o.push_back(n);
	std::ranges::sort(o, {}, [](auto* n) { return std::pair(n->data(keys::ID).toULongLong(), n->data(keys::TYPE).toString()); });
	return o;
}

Dump shown_processing(ProcessingScene* s) {
	Dump d;
	for(auto* n : nodes_of(s)) {
		auto const type = n->data(keys::TYPE).toString().toStdString();
		Shown x { where(n), {}, {} };
		for(auto* k : n->childItems())
			if(auto* t = dynamic_cast<ng::Text*>(k)) {
				auto const u = t->text().toStdString();
				if(!u.starts_with(type + " - ")) x.texts.push_back(u); // Not its title.
			}
		for(auto* m : n->get_input_nodes()) x.inputs.insert(m->data(keys::ID).toULongLong());
		std::ranges::sort(x.texts);
		d[{ type, n->data(keys::ID).toULongLong() }] = x;
	}
	return d;
}

std::string difference(Dump const& want, Dump const& got) {
	for(auto const& [k, v] : want) {
		auto const it = got.find(k);
		if(it == got.end()) return cat(k.first, " ", k.second, " is not shown");
		if(str(it->second) != str(v)) return cat(k.first, " ", k.second, " is shown as ", str(it->second), " instead of ", str(v));
	}
	for(auto const& [k, v] : got) if(!want.contains(k)) return cat(k.first, " ", k.second, " is shown and is not in the board");
	return "";
}

// Where each thing stands on a plane's view.
using Places = std::map<std::pair<std::string, std::size_t>, std::string>;

std::string at(double v) { return cat(v == 0 ? 0.0 : v); } // No negative zero.
std::string lines(bool vertical_line, double a) { return cat(vertical_line ? "x=" : "y=", at(a)); }
std::string band(bool vertical_line, double a, double b) { return cat(vertical_line ? "x=" : "y=", at(std::min(a, b)), "..", at(std::max(a, b))); }

Places expected_places(domain::Board const& b, domain::Plane p) {
	using namespace domain;
	Places o;
	for(auto const& q : b.get_polygons(p)) {
		std::string s;
		for(auto const& pt : q->points) s += cat("(", at(pt->x.value()), ",", at(pt->y.value()), ")");
		o[{ "Polygon", q->id }] = s;
		for(auto const& e : q->edges)
			o[{ "Edge", e->id }] = cat("(", at(e->p0().x.value()), ",", at(e->p0().y.value()), ")(", at(e->p1().x.value()), ",", at(e->p1().y.value()), ")");
	}
	for(auto const& a : b.get_angles(p)) o[{ "Angle", a->id }] = cat("(", at(a->p.x.value()), ",", at(a->p.y.value()), ")");
	for(Axis a : { horizontal(p), vertical(p) }) {
		bool const v = a == horizontal(p); // Something at a horizontal coordinate is a vertical line.
		for(auto const& m : b.get_meshlines(a)) o[{ "Meshline", m->id }] = lines(v, m->coord.value());
		for(auto const& m : b.get_meshline_policies(a)) o[{ "MeshlinePolicy", m->id }] = lines(v, m->coord.value());
		for(auto const& i : b.get_intervals(a)) o[{ "Interval", i->id }] = band(v, i->get_current_state().before.meshline_policy->coord.value(), i->get_current_state().after.meshline_policy->coord.value());
		for(auto const& k : b.get_conflicts_colinear_edges(a)) {
			// Where its edges are on that axis.
			auto const* e = k->get_current_state().edges[0];
			o[{ "ConflictColinearEdges", k->id }] = lines(v, (horizontal(e->plane) == a ? e->p0().x : e->p0().y).value());
		}
		for(auto const& k : b.get_conflicts_too_close_meshline_policies(a))
			if(auto const* s = dynamic_cast<MeshlinePolicy const*>(k->get_current_state().solution))
				o[{ "ConflictTooCloseMeshlinePolicies", k->id }] = lines(v, s->coord.value());
		for(auto const& k : b.get_conflicts_diagonal_or_circular_zones(a)) {
			double lo = 1e300, hi = -1e300;
			for(auto const* g : k->get_current_state().angles)
				for(auto const* e : { g->e0, g->e1 })
					for(auto const* q : { &e->p0(), &e->p1() }) {
						double const x = (horizontal(e->plane) == a ? q->x : q->y).value();
						lo = std::min(lo, x); hi = std::max(hi, x);
					}
			(void)lo; (void)hi;
			auto const bounding = k->bounding();
			o[{ "ConflictDiagonalOrCircularZone", k->id }] = band(v, bounding[XMIN].value(), bounding[XMAX].value());
		}
	}
	return o;
}

Places shown_places(StructureScene* s) {
	Places o;
	for(auto const* i : s->items()) {
		if(!i->data(keys::ID).isValid()) continue;
		auto const type = i->data(keys::TYPE).toString().toStdString();
		std::string x;
		if(auto const* g = dynamic_cast<QGraphicsPolygonItem const*>(i)) {
			auto const p = g->polygon();
			for(qsizetype k = 0; k + 1 < p.size(); ++k) x += cat("(", at(p[k].x()), ",", at(p[k].y()), ")");
		} else if(auto const* g = dynamic_cast<QGraphicsEllipseItem const*>(i)) {
			x = cat("(", at(g->rect().center().x()), ",", at(g->rect().center().y()), ")");
		} else if(auto const* g = dynamic_cast<QGraphicsLineItem const*>(i)) {
			auto const l = g->line();
			if(type == "Edge") x = cat("(", at(l.x1()), ",", at(l.y1()), ")(", at(l.x2()), ",", at(l.y2()), ")");
			else x = lines(std::abs(l.x1() - l.x2()) < std::abs(l.y1() - l.y2()), std::abs(l.x1() - l.x2()) < std::abs(l.y1() - l.y2()) ? l.x1() : l.y1());
		} else if(auto const* g = dynamic_cast<QGraphicsRectItem const*>(i)) {
			auto const r = g->rect().normalized();
			auto const whole = s->polygons->boundingRect();
			bool const up = r.height() > whole.height(), across = r.width() > whole.width();
			x = up && !across ? band(true, r.left(), r.right())
				: across && !up ? band(false, r.top(), r.bottom())
				: cat(band(true, r.left(), r.right()), "|", band(false, r.top(), r.bottom())); // Can't tell which way it goes.
		}
		o[{ type, i->data(keys::ID).toULongLong() }] = x;
	}
	return o;
}

// Rectangles are kept as an origin and sizes: their far side may be off by a rounding.
bool same_place(std::string const& a, std::string const& b) {
	if(a == b) return true;
	if(auto const bar = b.find('|'); bar != std::string::npos)
		return same_place(a, b.substr(0, bar)) || same_place(a, b.substr(bar + 1));
	auto const numbers = [](std::string s) {
		std::vector<double> v;
		std::string letters;
		for(std::size_t i = 0; i < s.size();) {
			char* e = nullptr;
			if(isdigit(s[i]) || s[i] == '-') { v.push_back(strtod(s.c_str() + i, &e)); i = (std::size_t)(e - s.c_str()); if(i < s.size() && s[i] == '.') ++i; }
			else letters += s[i++];
		}
		return std::pair(letters, v);
	};
	auto const split = [](std::string s) { auto const p = s.find(".."); return p == std::string::npos ? s : s.substr(0, p) + ";" + s.substr(p + 2); };
	auto const [la, va] = numbers(split(a));
	auto const [lb, vb] = numbers(split(b));
	if(la != lb || va.size() != vb.size()) return false;
	for(std::size_t i = 0; i < va.size(); ++i)
		if(std::abs(va[i] - vb[i]) > 1e-7 * std::max(1.0, std::abs(va[i]))) return false;
	return true;
}

// What an item draws, as told to the painter: nothing about how it decides it.
struct Stroke { QLineF line; QString text; std::string ink; };

struct Recorder : QPaintDevice {
	struct Engine : QPaintEngine {
		std::vector<Stroke> strokes;
		Engine() : QPaintEngine(AllFeatures) {}
		bool begin(QPaintDevice*) override { setActive(true); return true; }
		bool end() override { setActive(false); return true; }
		void updateState(QPaintEngineState const&) override {}
		Type type() const override { return User; }
		std::string ink() const {
			auto const p = painter()->pen();
			auto const b = painter()->brush();
			return cat(p.style() == Qt::NoPen ? "-" : p.color().name(QColor::HexArgb).toStdString(), "/", (int)p.style(), "/", b.style() == Qt::NoBrush ? "-" : b.color().name(QColor::HexArgb).toStdString());
		}
		void drawPixmap(QRectF const&, QPixmap const&, QRectF const&) override {}
		void drawLines(QLineF const* l, int n) override { for(int i = 0; i < n; ++i) strokes.push_back({ l[i], {}, ink() }); }
		void drawPath(QPainterPath const&) override { strokes.push_back({ {}, {}, ink() }); }
		void drawEllipse(QRectF const&) override { strokes.push_back({ {}, {}, ink() }); }
		void drawRects(QRectF const*, int n) override { while(n--) strokes.push_back({ {}, {}, ink() }); }
		void drawPolygon(QPointF const*, int, PolygonDrawMode) override { strokes.push_back({ {}, {}, ink() }); }
		void drawTextItem(QPointF const&, QTextItem const& t) override { strokes.push_back({ {}, t.text(), ink() }); }
	} engine;
	QPaintEngine* paintEngine() const override { return const_cast<Engine*>(&engine); }
	int metric(PaintDeviceMetric m) const override {
		switch(m) {
		case PdmWidth: case PdmHeight: return 10'000;
		case PdmDpiX: case PdmDpiY: case PdmPhysicalDpiX: case PdmPhysicalDpiY: return 96;
		case PdmDepth: return 32;
		case PdmNumColors: return 1 << 24;
		case PdmDevicePixelRatio: return 1;
		case PdmDevicePixelRatioScaled: return (int)devicePixelRatioFScale();
		default: return 100;
		}
	}
};

std::vector<Stroke> strokes(QGraphicsItem* i, QStyle::State state = QStyle::State_None) {
	Recorder d;
	{
		QPainter p(&d);
		QStyleOptionGraphicsItem o;
		o.state = state;
		i->paint(&p, &o, nullptr);
	}
	return d.engine.strokes;
}

// What says yes and what says no do not look the same; all that says the same does.
struct Looks {
	std::array<std::set<std::string>, 2> of;
	void add(bool yes, std::string const& ink) { of[yes].insert(ink); }
	std::string str() const { std::string o; for(int i : { 0, 1 }) { o += i ? " yes:" : " no:"; for(auto const& k : of[(std::size_t)i]) o += " " + k; } return o; }
	bool right() const { return of[0].size() <= 1 && of[1].size() <= 1 && (of[0].empty() || of[0] != of[1]); }
};

void monitor_looks(Ctx& c, std::string const& after) {
	using namespace domain;
	auto const& b = W->board();
	std::set<std::size_t> enabled;
	std::map<std::size_t, std::pair<double, MeshlinePolicyState>> policies;
	std::map<std::size_t, std::array<bool, 2>> angles;
	for(Axis a : AllAxis) for(auto const& p : b.get_meshline_policies(a)) policies.emplace(p->id, std::pair(p->coord.value(), p->get_current_state()));
	for(Plane p : AllPlane) for(auto const& a : b.get_angles(p)) angles[a->id] = { a->get_current_state().to_mesh[H], a->get_current_state().to_mesh[V] };
	Looks lines, crosses, texts, ports;
	std::set<std::string> selected_as_not;
	for(Plane p : AllPlane) {
		if(b.get_polygons(p).empty()) continue; // Nothing to tell directions from.
		for(auto* i : W->sv->states.at(Caretaker::singleton().get_current_timepoint()).scenes[p]->items()) {
			auto const type = i->data(keys::TYPE).toString().toStdString();
			auto const id = i->data(keys::ID).toULongLong();
			if(!i->data(keys::ID).isValid()) continue;
			auto const drawn = strokes(i), chosen = strokes(i, QStyle::State_Selected); // Some only show once selected.
			if(type == "MeshlinePolicy" && policies.contains(id)) {
				auto const& [coord, s] = policies.at(id);
				if(drawn.size() != 3) { c.fail("policy-strokes", cat(after, ": a policy is drawn with ", drawn.size(), " lines")); continue; }
				lines.add(s.is_enabled, chosen.at(0).ink);
				// Where it asks for lines.
				double low = 0, high = 0;
				if(s.policy == MeshlinePolicy::Policy::HALFS) low = high = s.d / 2;
				if(s.policy == MeshlinePolicy::Policy::THIRDS && s.normal == MeshlinePolicy::Normal::MAX) { low = s.d / 3; high = 2 * s.d / 3; }
				if(s.policy == MeshlinePolicy::Policy::THIRDS && s.normal == MeshlinePolicy::Normal::MIN) { low = 2 * s.d / 3; high = s.d / 3; }
				std::vector<double> at;
				for(int k : { 1, 2 }) {
					auto const l = drawn[(std::size_t)k].line;
					at.push_back(std::abs(l.dx()) < std::abs(l.dy()) ? l.x1() : l.y1());
				}
				std::ranges::sort(at);
				double const slack = 1e-9 * std::max({ 1.0, std::abs(coord), s.d });
				c.check(std::abs(at[0] - (coord - low)) <= slack && std::abs(at[1] - (coord + high)) <= slack, "policy-lines", [&] { return cat(after, ": ", name(s.policy), " ", name(s.normal), " of ", s.d, " at ", coord, " is drawn around it at ", at[0], " and ", at[1]); });
				c.count("policies drawn");
			}
			if(type == "Angle" && angles.contains(id))
				for(auto const& d : chosen) {
					if(d.line.isNull()) continue;
					bool const vertical = std::abs(d.line.dx()) < std::abs(d.line.dy());
					// A vertical line is where a line of the horizontal axis would be.
					crosses.add(angles.at(id)[vertical ? H : V], d.ink);
					c.count("angles' lines drawn");
				}
			bool same = drawn.size() == chosen.size();
			for(std::size_t k = 0; same && k < drawn.size(); ++k) same = drawn[k].ink == chosen[k].ink;
			if(same) selected_as_not.insert(type);
		}
	}
	c.check(lines.right(), "policy-looks", [&] { return cat(after, ": enabled and disabled policies cannot be told apart:", lines.str()); });
	c.check(crosses.right(), "angle-looks", [&] { return cat(after, ": angles' directions to mesh and not to cannot be told apart:", crosses.str()); });
	c.check(selected_as_not.empty(), "selected-looks", [&] { return cat(after, ": a selected ", *selected_as_not.begin(), " looks as any other"); });
	for(auto* n : nodes_of(W->ps())) {
		std::vector<std::string> edges, shown;
		for(auto* k : n->childItems()) {
			auto* t = dynamic_cast<QGraphicsSimpleTextItem*>(k);
			if(!t) continue;
			auto const text = t->text().toStdString();
			if(auto* q = dynamic_cast<ng::Port*>(t)) {
				if(!text.starts_with("Normal: ")) continue;
				shown.push_back(text);
				if(q->is_highlighted()) continue;
				for(auto const& d : strokes(q)) if(!d.text.isEmpty()) ports.add(text.ends_with(" enabled"), d.ink);
			} else if(text.starts_with("To mesh") || text.starts_with("Is enabled")) {
				if(auto* h = dynamic_cast<ng::Text*>(t); h && h->is_highlighted()) continue;
				for(auto const& d : strokes(t)) if(!d.text.isEmpty()) texts.add(text.ends_with("true"), d.ink);
				c.count("states' texts drawn");
			}
		}
		if(n->data(keys::TYPE).toString() != "ConflictColinearEdges") continue;
		for(Axis a : AllAxis)
			for(auto const& k : b.get_conflicts_colinear_edges(a))
				if(k->id == n->data(keys::ID).toULongLong())
					for(auto const* e : k->get_current_state().edges) edges.push_back(cat("Normal: ", name(e->normal), e->get_current_state().to_mesh ? " enabled" : " disabled"));
		std::ranges::sort(edges);
		std::ranges::sort(shown);
		c.check(edges == shown, "conflict-ports", [&] { std::string o; for(auto const& s : shown) o += " '" + s + "'"; return cat(after, ": the edges of a conflict are shown as", o); });
		c.count("conflicts' edges shown", (long)shown.size());
	}
	c.check(texts.right(), "texts-looks", [&] { return cat(after, ": true and false states cannot be told apart:", texts.str()); });
	c.check(ports.right(), "ports-looks", [&] { return cat(after, ": enabled and disabled edges of conflicts cannot be told apart:", ports.str()); });
}

// What is in the window is what is in the board.
void monitor_views(Ctx& c, std::string const& after) {
	auto const& b = W->board();
	auto* t = Caretaker::singleton().get_current_timepoint();
	c.check(W->ps() && W->ss(), "no-scene", [&] { return cat("nothing is displayed ", after); });
	if(!W->ps() || !W->ss()) return;
	auto const want = expected_processing(b);
	auto const d = difference(want, shown_processing(W->ps()));
	c.check(d.empty(), "processing-view", [&] { return cat(after, ": ", d); });
	c.count("nodes compared", (long)want.size());
	if(!W->sv->states.contains(t)) { c.fail("no-view", cat("no structure view of the current state ", after)); return; }
	auto const& scenes = W->sv->states.at(t).scenes;
	bool among = false;
	for(domain::Plane p : domain::AllPlane) {
		among |= scenes[p] == W->ss();
		auto const w = expected_places(b, p);
		auto g = shown_places(scenes[p]);
		c.count("places compared", (long)w.size());
		for(auto const& [k, v] : w) {
			auto const it = g.find(k);
			if(it == g.end()) { c.fail("structure-view", cat(after, ": ", k.first, " ", k.second, " is not shown on plane ", (int)p)); break; }
			if(b.get_polygons(p).empty()) continue; // Nothing to tell directions from.
			if(!same_place(v, it->second)) { c.fail(cat("structure-view-", k.first), cat(after, ": ", k.first, " ", k.second, " is shown at ", it->second, " instead of ", v, " on plane ", (int)p)); break; }
		}
		for(auto const& [k, v] : g) if(!w.contains(k)) { c.fail("structure-view", cat(after, ": ", k.first, " ", k.second, " is shown on plane ", (int)p, " and is not in the board")); break; }
	}
	monitor_looks(c, after);
	c.check(among, "structure-scene", [&] { return cat(after, ": the structure view shows an other state"); });
	auto& k = Caretaker::singleton();
	auto button = [&](char const* n, bool want) { c.check(W->a(n)->isEnabled() == want, cat("button-", n), [&] { return cat(after, ": ", n, " is ", want ? "disabled" : "enabled"); }); };
	button("a_undo", k.can_undo());
	button("a_redo", k.can_redo());
	button("a_mesh_prev", W->oemsh.can_go_before());
	button("a_mesh_next", W->oemsh.can_run_a_next_step());
	auto const label = W->w.findChild<QLabel*>("l_cell_number")->text().toStdString();
	auto const cells = std::to_string(b.get_mesh_cell_number());
	c.check(label.ends_with(cells) && (label.size() == cells.size() || !isdigit(label[label.size() - cells.size() - 1])), "cell-number", [&] { return cat(after, ": '", label, "' is shown for ", cells, " cells"); });
	c.count("states looked at");
}

//------------------------------------------------------------------- display state
struct Display {
	ProcessingScene::DisplayMode mode = ProcessingScene::DisplayMode::SELECTED_CHAIN;
	int mesh = 3; // bit 0: horizontal lines, bit 1: vertical lines.
	domain::Plane plane = domain::XY;
	std::set<ng::Node*> revealed; // What selecting in the structure view shows, whatever the mode.
};

ng::Node* root_of(ng::Node* n) {
	while(auto* k = n->get_surrounding_container()) n = k;
	return n;
}

std::set<std::size_t> selection(QGraphicsScene* s) {
	std::set<std::size_t> o;
	for(auto* i : s->selectedItems()) if(i->data(keys::ID).isValid()) o.insert(i->data(keys::ID).toULongLong());
	return o;
}

std::string str(std::set<std::size_t> const& s) { std::string o = "{"; for(auto i : s) o += cat(" ", i); return o + " }"; }

void chain_up(ng::Node* n, std::set<ng::Node*>& out) { for(auto* m : n->get_input_nodes()) if(out.insert(m).second) chain_up(m, out); }
void chain_down(ng::Node* n, std::set<ng::Node*>& out) { for(auto* m : n->get_output_nodes()) if(out.insert(m).second) chain_down(m, out); }
void chain_of(ng::Node* n, std::set<ng::Node*>& out) {
	std::set<ng::Node*> up, down;
	chain_up(n, up);
	chain_down(n, down);
	out.insert(up.begin(), up.end());
	out.insert(down.begin(), down.end());
}

// The processing view is limited to what its mode says.
void monitor_display(Ctx& c, Display const& d, std::string const& after) {
	using Mode = ProcessingScene::DisplayMode;
	auto* const s = W->ps();
	auto* const t = W->ss();
	if(!s || !t) return;
	c.check(s->get_display_mode() == d.mode, "mode", [&] { return cat(after, ": the processing view is in an other mode"); });
	c.check(W->tb("tb_show_everything")->isChecked() == (d.mode == Mode::EVERYTHING) && W->tb("tb_show_displayed")->isChecked() == (d.mode == Mode::STRUCTURE_VIEW) && W->tb("tb_show_selected")->isChecked() == (d.mode == Mode::SELECTED_CHAIN),
		"mode-buttons", [&] { return cat(after, ": the buttons show an other mode"); });
	using V = StructureScene::MeshVisibility;
	V const v = d.mesh == 3 ? V::FULL : d.mesh == 1 ? V::HORIZONTAL : d.mesh == 2 ? V::VERTICAL : V::NONE;
	c.check(t->get_mesh_visibility() == v, "mesh-visibility", [&] { return cat(after, ": the structure view shows other lines"); });
	c.check(W->tb("tb_show_all_mesh")->isChecked() == (d.mesh == 3) && W->tb("tb_show_horizontal_mesh")->isChecked() == (d.mesh == 1) && W->tb("tb_show_vertical_mesh")->isChecked() == (d.mesh == 2) && W->tb("tb_show_no_mesh")->isChecked() == (d.mesh == 0),
		"mesh-buttons", [&] { return cat(after, ": the buttons show an other line visibility"); });
	for(auto const* i : t->items())
		if(i->data(keys::TYPE).toString() == "Meshline") {
			auto const l = static_cast<QGraphicsLineItem const*>(i)->line();
			bool const vert = std::abs(l.x1() - l.x2()) < std::abs(l.y1() - l.y2());
			if(W->board().get_polygons(d.plane).empty()) break;
			if(i->isVisible() != (bool)(d.mesh & (vert ? 2 : 1))) { c.fail("lines-visible", cat(after, ": a ", vert ? "vertical" : "horizontal", " line is ", i->isVisible() ? "visible" : "hidden")); break; }
		}
	c.check(t == W->sv->states.at(Caretaker::singleton().get_current_timepoint()).scenes[d.plane], "plane", [&] { return cat(after, ": the structure view shows an other plane"); });

	auto const all = nodes_of(s);
	std::set<ng::Node*> want;
	switch(d.mode) {
	case Mode::EVERYTHING: want.insert(all.begin(), all.end()); break;
	case Mode::STRUCTURE_VIEW:
		for(auto* n : all) {
			ng::Node* const root = root_of(n);
			auto const type = root->data(keys::TYPE).toString(), name = root->data(keys::NAME).toString();
			if(type == "Plane" && name == (d.plane == domain::XY ? "XY" : d.plane == domain::YZ ? "YZ" : "ZX")) want.insert(n);
			if(type == "Axis") {
				auto const a = name == "X" ? domain::X : name == "Y" ? domain::Y : domain::Z;
				// Vertical lines are at horizontal coordinates.
				if((a == horizontal(d.plane) && d.mesh & 2) || (a == vertical(d.plane) && d.mesh & 1)) want.insert(n);
			}
		}
		break;
	case Mode::SELECTED_CHAIN:
		for(auto* n : all)
			if(n->isSelected()) {
				want.insert(n);
				chain_of(n, want);
			}
		for(auto* n : std::set(want))
			for(ng::Node* k = n->get_surrounding_container(); k; k = k->get_surrounding_container())
				if(k->data(keys::ID).isValid()) want.insert(k);
		break;
	}
	for(auto* n : all)
		if(n->isVisible() != want.contains(n) && !(d.mode == Mode::STRUCTURE_VIEW && n->isVisible() && d.revealed.contains(root_of(n)))) {
			c.fail("nodes-visible", cat(after, ": ", n->data(keys::TYPE).toString().toStdString(), " ", n->data(keys::ID).toULongLong(), " is ", n->isVisible() ? "visible" : "hidden", " in mode ", (int)d.mode, ", selection ", str(selection(s))));
			break;
		}
	c.count("visible nodes", (long)want.size());
	c.count("displays looked at");
}

void set_display(Ctx& c, Display const& d) {
	act(c, [&] {
		W->tb(d.plane == domain::XY ? "tb_plane_xy" : d.plane == domain::YZ ? "tb_plane_yz" : "tb_plane_zx")->click();
		W->tb(d.mesh == 3 ? "tb_show_all_mesh" : d.mesh == 2 ? "tb_show_vertical_mesh" : d.mesh == 1 ? "tb_show_horizontal_mesh" : "tb_show_no_mesh")->click();
		W->tb(d.mode == ProcessingScene::DisplayMode::EVERYTHING ? "tb_show_everything" : d.mode == ProcessingScene::DisplayMode::STRUCTURE_VIEW ? "tb_show_displayed" : "tb_show_selected")->click();
	});
}

// What is selected in a view is selected in the other.
void monitor_selection(Ctx& c, std::string const& after) {
	auto* const s = W->ps();
	if(!s || !W->ss()) return;
	auto const sel = selection(s);
	// The structure view: whatever of it the displayed plane has and does not hide.
	auto* const t = W->ss();
	std::set<std::size_t> want;
	for(auto const* i : t->items())
		if(i->data(keys::ID).isValid() && i->isVisible() && sel.contains(i->data(keys::ID).toULongLong())) want.insert(i->data(keys::ID).toULongLong());
	auto const got = selection(t);
	c.check(want == got, "selection", [&] { return cat(after, ": ", str(sel), " is selected in the processing view and ", str(got), " in the structure view instead of ", str(want)); });
	// Everything selected in the structure view is in the processing one.
	c.count("selected items", (long)sel.size());
	// Highlighting: exactly the chain of what is selected.
	std::set<ng::Node*> chain;
	auto const all = nodes_of(s);
	for(auto* n : all) if(n->isSelected()) chain_of(n, chain);
	for(auto* n : all)
		if(!n->isSelected() && n->is_highlighted() != chain.contains(n)) {
			c.fail("highlight", cat(after, ": ", n->data(keys::TYPE).toString().toStdString(), " ", n->data(keys::ID).toULongLong(), n->is_highlighted() ? " is highlighted" : " is not highlighted", ", selection ", str(sel)));
			break;
		}
}

//------------------------------------------------------------------------- opening
csx::Scene scene_of(Rng& r) {
	csx::Options o;
	o.extent = r.pick({ 4L, 6L });
	o.diagonals = r.chance(40);
	o.min_prims = 1;
	o.max_prims = 3;
	auto s = csx::random_scene(r, o);
	s.globals.dmax = std::max(s.globals.dmax.value_or(0), 4 * s.unit);
	s.globals.lmin = r.in(0, 3);
	s.write_oemsh = true;
	return s;
}

bool start(Ctx& c, std::string const& xml, char const* file = "in.csx") {
	c.input = xml;
	auto const p = c.scratch / file;
	write_file(p, xml);
	app::OpenEMSH::Params q;
	q.override_from_cli = [](domain::Params&) {};
	W->oemsh = app::OpenEMSH(q);
	open_file(c, p);
	return W->a("a_edit")->isEnabled();
}

// Steps, undos... as a user walks.
struct Walk { char const* action; bool (*can)(); };
std::vector<Walk> const walks {
	{ "a_undo", [] { return Caretaker::singleton().can_undo(); } },
	{ "a_redo", [] { return Caretaker::singleton().can_redo(); } },
	{ "a_mesh_prev", [] { return W->oemsh.can_go_before(); } },
	{ "a_mesh_next", [] { return W->oemsh.can_run_a_next_step(); } },
};

//---------------------------------------------------------------------------- edits
// What a dialog was opened on, by name: it has to be found again in an other run.
struct Target { std::string kind; int space = 0; std::size_t i = 0, j = 0; };

struct Values { std::vector<std::optional<std::string>> v; bool accept = true; }; // What was entered.

struct Op { std::string what; Target target; Values values; std::string after; };

std::optional<Target> target_of(domain::Board const& b, Entity const* e) {
	using namespace domain;
	for(Plane p : AllPlane) {
		auto const& qs = b.get_polygons(p);
		for(std::size_t i = 0; i < qs.size(); ++i)
			for(std::size_t j = 0; j < qs[i]->edges.size(); ++j)
				if(static_cast<Entity const*>(qs[i]->edges[j].get()) == e) return Target { "Edge", p, i, j };
		auto const& as = b.get_angles(p);
		for(std::size_t i = 0; i < as.size(); ++i) if(static_cast<Entity const*>(as[i].get()) == e) return Target { "Angle", p, i };
	}
	for(Axis a : AllAxis) {
		auto look = [&](auto const& v, char const* kind) -> std::optional<Target> {
			for(std::size_t i = 0; i < v.size(); ++i) if(static_cast<Entity const*>(v[i].get()) == e) return Target { kind, static_cast<int>(a), i };
			return {};
		};
		if(auto t = look(b.get_meshline_policies(a), "MeshlinePolicy")) return t;
		if(auto t = look(b.get_intervals(a), "Interval")) return t;
		if(auto t = look(b.get_conflicts_diagonal_or_circular_zones(a), "ConflictDiagonalOrCircularZone")) return t;
		if(auto t = look(b.get_conflicts_too_close_meshline_policies(a), "ConflictTooCloseMeshlinePolicies")) return t;
	}
	return {};
}

std::vector<std::string> choices(std::string const& kind, std::size_t row) {
	std::vector<std::string> const boolean { "true", "false" };
	if(kind == "Global") return std::vector<std::vector<std::string>> { { "0", "0.5", "1.123456789", "x" }, { "1.2", "1.5", "2", "1.33333333333" }, { "0", "1", "3", "-", "2.5", "010", "0x3", "1e1" }, { "4", "10", "6.123456789", "" }, { "5", "20", "60" }, { "0.5", "1", "2" }, { "0", "3" } }[row];
	if(kind == "Edge" || kind == "Angle" || kind == "ConflictTooCloseMeshlinePolicies") return boolean;
	if(kind == "MeshlinePolicy") return std::vector<std::vector<std::string>> { { "ONELINE", "HALFS", "THIRDS" }, { "MIN", "MAX" }, boolean, { "0.5", "1", "2.0000000001", "q" } }[row];
	if(kind == "Interval") return std::vector<std::vector<std::string>> { { "0.5", "1.23456789", "2", "z", "1e0" }, { "0", "2", "4", "y", "08", "0b1" }, { "1.2", "1.7", "2" }, { "0", "2", "4" }, { "1.2", "1.456789123", "2" } }[row];
	return std::vector<std::vector<std::string>> { { "0", "2" }, { "0.3", "0.7", "1.5000000001" }, { "5", "40", "170" } }[row];
}

// Goes through an edition dialog as a user would.
bool through_dialog(Ctx& c, Rng& r, QWidget* w, std::string const& kind, Values& out) {
	auto* d = qobject_cast<ui::qt::EditDialog*>(w);
	if(!d) return false;
	c.count(cat("dialogs on a ", kind));
	d->grab(); // As it is painted first.
	auto* v = d->findChild<QTableView*>("tv_properties");
	auto* m = qobject_cast<QStandardItemModel*>(v->model());
	out.v.assign((std::size_t)m->rowCount(), std::nullopt);
	for(int row = 0; row < m->rowCount(); ++row) {
		if(!r.chance(kind == "MeshlinePolicy" ? 50 : 40)) continue;
		auto const index = m->index(row, 2);
		auto* item = m->item(row, 2);
		auto s = r.pick(choices(kind, (std::size_t)row));
		if(item->isCheckable()) {
			item->setCheckState(s == "true" ? Qt::Checked : Qt::Unchecked);
			out.v[(std::size_t)row] = s;
			continue;
		}
		if(!(item->flags() & Qt::ItemIsEditable)) continue;
		v->setCurrentIndex(index);
		v->edit(index);
		QWidget* editor = nullptr;
		for(auto* k : v->viewport()->findChildren<QWidget*>(Qt::FindDirectChildrenOnly))
			if(qobject_cast<QComboBox*>(k) || qobject_cast<QLineEdit*>(k)) editor = k;
		if(!editor) continue; // Cannot be edited.
		if(auto* b = qobject_cast<QComboBox*>(editor)) {
			int const at = b->findText(QString::fromStdString(s));
			auto const* bm = qobject_cast<QStandardItemModel*>(b->model());
			if(at < 0) { c.fail("choices", cat("'", s, "' is not among the choices")); continue; }
			if(bm->item(at)->isEnabled()) {
				b->setCurrentIndex(at);
				out.v[(std::size_t)row] = s;
				if(kind == "MeshlinePolicy" && row == 0) out.v[1] = std::nullopt; // Decides of the normal too.
			}
		} else {
			qobject_cast<QLineEdit*>(editor)->setText(QString::fromStdString(s));
			out.v[(std::size_t)row] = s;
		}
		QTest::keyClick(editor, Qt::Key_Return);
		settle();
	}
	out.accept = r.chance(85);
	auto* box = d->findChild<QDialogButtonBox*>("dbb_ok");
	auto* ok = box->button(QDialogButtonBox::Ok);
	auto* no = box->button(QDialogButtonBox::Cancel);
	if(!ok) { std::cerr << "no OK button\n"; _exit(3); }
	if(out.accept || !no) { if(!out.accept) d->reject(); else ok->click(); }
	else no->click();
	return true;
}

std::optional<double> number(std::string const& s) { bool ok = false; double const v = QString::fromStdString(s).toDouble(&ok); return ok ? std::optional(v) : std::nullopt; }
std::optional<unsigned long> natural(std::string const& s) { bool ok = false; auto const v = QString::fromStdString(s).toULong(&ok); return ok ? std::optional(v) : std::nullopt; }

bool valid(std::string const& kind, Values const& x) {
	auto is_natural = [&](std::size_t i) { return !x.v[i] || natural(*x.v[i]).has_value(); };
	auto is_number = [&](std::size_t i) { return !x.v[i] || number(*x.v[i]).has_value(); };
	if(kind == "Global") return is_number(0) && is_number(1) && is_natural(2) && is_number(3) && is_number(4) && is_number(5) && is_natural(6);
	if(kind == "MeshlinePolicy") return is_number(3);
	if(kind == "Interval") return is_number(0) && is_natural(1) && is_number(2) && is_natural(3) && is_number(4);
	if(kind == "ConflictDiagonalOrCircularZone") return is_natural(0) && is_number(1) && is_number(2);
	return true;
}

// The same edition, made on an other board, without any window.
void replay_edit(domain::Board const& b, app::OpenEMSH const& app, Target const& t, Values const& x) {
	using namespace domain;
	if(!x.accept || !valid(t.kind, x)) return;
	auto& k = Caretaker::singleton();
	auto go = [&](app::Step from) {
		// Of an incomplete run, what has not been run yet has to be.
		std::optional<app::Step> next;
		if(auto const* a = k.get_annotation(k.get_current_timepoint())) next = static_cast<app::Annotation const*>(a)->before_step;
		else if(auto const s = app.get_current_step()) next = app::next(*s);
		else next = app::Step::ADJUST_EDGE_TO_MATERIAL;
		if(next && *next < from) from = *next;
		app.go_before(from);
		return from;
	};
	auto num = [&](std::size_t i, double& o) { if(x.v[i]) o = *number(*x.v[i]); };
	auto nat = [&](std::size_t i, std::size_t& o) { if(x.v[i]) o = *natural(*x.v[i]); };
	auto tru = [&](std::size_t i, bool& o) { if(x.v[i]) o = *x.v[i] == "true"; };
	using enum app::Step;
	app::Step from {};
	if(t.kind == "Global") {
		from = go(DETECT_DIAG_ZONES);
		auto s = b.global_params->get_current_state();
		num(0, s.proximity_limit); num(1, s.smoothness); nat(2, s.lmin); num(3, s.dmax); num(4, s.consecutive_diagonal_minimal_angle); num(5, s.diagonal_dmax); nat(6, s.diagonal_lmin);
		b.global_params->set_next_state(s);
	} else if(t.kind == "Edge") {
		auto* e = b.get_polygons((Plane)t.space)[t.i]->edges[t.j].get();
		auto const was = e->get_current_state();
		from = go(SOLVE_ALL_CE);
		auto s = e->get_current_state();
		s.to_mesh = was.to_mesh; s.to_reverse = was.to_reverse;
		tru(0, s.to_mesh); tru(1, s.to_reverse);
		e->set_next_state(s);
	} else if(t.kind == "Angle") {
		auto* e = b.get_angles((Plane)t.space)[t.i].get();
		auto const was = e->get_current_state();
		from = go(SOLVE_ALL_CE);
		auto s = e->get_current_state();
		s.to_mesh = was.to_mesh;
		tru(0, s.to_mesh[H]); tru(1, s.to_mesh[V]);
		e->set_next_state(s);
	} else if(t.kind == "MeshlinePolicy") {
		auto* e = b.get_meshline_policies((Axis)t.space)[t.i].get();
		auto const was = e->get_current_state();
		from = go(DETECT_INTERVALS);
		auto s = e->get_current_state();
		s.policy = was.policy; s.normal = was.normal; s.is_enabled = was.is_enabled; s.d = was.d;
		using P = MeshlinePolicy;
		if(x.v[0]) s.policy = *x.v[0] == "ONELINE" ? P::Policy::ONELINE : *x.v[0] == "HALFS" ? P::Policy::HALFS : P::Policy::THIRDS;
		if(x.v[1]) s.normal = *x.v[1] == "MIN" ? P::Normal::MIN : P::Normal::MAX;
		else if(s.policy != P::Policy::THIRDS) s.normal = P::Normal::NONE;
		else if(s.normal == P::Normal::NONE) s.normal = P::Normal::MIN;
		tru(2, s.is_enabled); num(3, s.d);
		e->set_next_state(s);
	} else if(t.kind == "Interval") {
		auto* e = b.get_intervals((Axis)t.space)[t.i].get();
		auto const was = e->get_current_state();
		from = go(MESH);
		auto s = e->get_current_state();
		s.dmax = was.dmax; s.before.lmin = was.before.lmin; s.after.lmin = was.after.lmin;
		s.before.smoothness = s.after.smoothness = 2; // Proposed by the dialog.
		num(0, s.dmax); nat(1, s.before.lmin); num(2, s.before.smoothness); nat(3, s.after.lmin); num(4, s.after.smoothness);
		e->set_next_state(s);
	} else if(t.kind == "ConflictDiagonalOrCircularZone") {
		auto* e = b.get_conflicts_diagonal_or_circular_zones((Axis)t.space)[t.i].get();
		auto const was = e->get_current_state();
		double angle = was.minimal_angle;
		num(2, angle);
		from = go(angle != was.minimal_angle ? SOLVE_DIAG_ZONES_ANGLES : SOLVE_DIAG_ZONES_INTERVALS);
		auto s = e->get_current_state();
		s.dmax = was.dmax; s.lmin = was.lmin; s.minimal_angle = angle;
		nat(0, s.lmin); num(1, s.dmax);
		e->set_next_state(s);
	} else return;
	app.run_from_step(from);
}

std::string str(Target const& t) { return cat(t.kind, " ", t.space, ".", t.i, ".", t.j); }
std::string str(Values const& x) {
	std::string o;
	for(std::size_t i = 0; i < x.v.size(); ++i) if(x.v[i]) o += cat(" [", i, "]='", *x.v[i], "'");
	return o + (x.accept ? " OK" : " Cancel");
}

// What was entered is what is shown then, unless the document had not come to the step it matters to.
void look_kept(Ctx& c, Target const& t, Values const& x, std::optional<app::Step> next) {
	using namespace domain;
	if(!x.accept || !valid(t.kind, x)) return;
	auto const& b = W->board();
	using enum app::Step;
	auto const reached = [&](app::Step s) { return !next || *next >= s; };
	auto const say = [&](std::size_t i) { return [&, i] { return cat("'", *x.v[i], "' was entered for the value ", i, " of a ", t.kind, ", that is not kept"); }; };
	auto const num = [&](std::size_t i, double got) { if(x.v[i]) c.check(got == *number(*x.v[i]), "kept", say(i)); };
	auto const less = [&](std::size_t i, double got) { if(x.v[i]) c.check(got <= *number(*x.v[i]), "kept", say(i)); };
	auto const nat = [&](std::size_t i, std::size_t got) { if(x.v[i]) c.check(got == *natural(*x.v[i]), "kept", say(i)); };
	auto const tru = [&](std::size_t i, bool got) { if(x.v[i]) c.check(got == (*x.v[i] == "true"), "kept", say(i)); };
	if(t.kind == "Global") {
		auto const& s = b.global_params->get_current_state();
		num(0, s.proximity_limit); num(1, s.smoothness); nat(2, s.lmin); num(3, s.dmax); num(4, s.consecutive_diagonal_minimal_angle); num(5, s.diagonal_dmax); nat(6, s.diagonal_lmin);
	} else if(t.kind == "Edge" && reached(SOLVE_ALL_CE)) {
		auto const& s = b.get_polygons((Plane)t.space)[t.i]->edges[t.j]->get_current_state();
		tru(0, s.to_mesh); tru(1, s.to_reverse);
	} else if(t.kind == "Angle" && reached(SOLVE_ALL_CE)) {
		auto const& s = b.get_angles((Plane)t.space)[t.i]->get_current_state();
		tru(0, s.to_mesh[H]); tru(1, s.to_mesh[V]);
	} else if(t.kind == "MeshlinePolicy" && reached(DETECT_INTERVALS)) {
		auto const& s = b.get_meshline_policies((Axis)t.space)[t.i]->get_current_state();
		using P = MeshlinePolicy;
		if(x.v[0]) c.check(s.policy == (*x.v[0] == "ONELINE" ? P::Policy::ONELINE : *x.v[0] == "HALFS" ? P::Policy::HALFS : P::Policy::THIRDS), "kept", say(0));
		if(x.v[1]) c.check(s.normal == (*x.v[1] == "MIN" ? P::Normal::MIN : P::Normal::MAX), "kept", say(1));
		tru(2, s.is_enabled); less(3, s.d);
	} else if(t.kind == "ConflictDiagonalOrCircularZone") {
		auto const& s = b.get_conflicts_diagonal_or_circular_zones((Axis)t.space)[t.i]->get_current_state();
		nat(0, s.lmin); num(1, s.dmax); num(2, s.minimal_angle);
	} else return;
	c.count(cat("kept ", t.kind));
}

// Opens the dialog of something of the processing view.
std::optional<Op> edit_something(Ctx& c, Rng& r) {
	std::vector<ng::Node*> can;
	std::map<std::string, std::vector<ng::Node*>> by;
	for(auto* n : nodes_of(W->ps())) {
		auto const t = n->data(keys::TYPE).toString().toStdString();
		if(t == "Edge" || t == "Angle" || t == "MeshlinePolicy" || t == "Interval" || t == "ConflictDiagonalOrCircularZone") by[t].push_back(n);
	}
	std::vector<std::string> kinds { "Global" };
	for(auto const& [k, v] : by) kinds.push_back(k);
	auto const kind = r.pick(kinds);
	Op op;
	auto const next = W->oemsh.get_next_step();
	if(kind == "Global") {
		op.target = { "Global" };
		act(c, [&] {
			W->ps()->clearSelection();
			settle();
			R->script.push_back({ "global parameters dialog", [&](QWidget* d) { return through_dialog(c, r, d, kind, op.values); } });
			W->a("a_edit")->trigger();
		});
	} else {
		auto* n = r.pick(by[kind]);
		auto const t = target_of(W->board(), keys::get_entity(n->data(keys::ENTITY)));
		if(!t) { c.fail("stale-node", cat("a ", kind, " shown is not in the board")); return {}; }
		op.target = *t;
		// Selected in the structure view, or in the processing view.
		auto const id = n->data(keys::ID).toULongLong();
		act(c, [&] {
			W->ps()->clearSelection();
			settle();
			n->show_after_parents();
			n->setSelected(true);
			settle();
			QTest::qWait(0);
			std::set<std::size_t> const want { id };
			auto got = selection(W->ps());
			c.check(got.contains(id), "select", [&] { return cat("could not select ", kind, " ", id); });
			if(got != want) return;
			R->script.push_back({ cat(kind, " dialog"), [&](QWidget* d) { return through_dialog(c, r, d, kind, op.values); } });
			W->a("a_edit")->trigger();
		});
		if(op.values.v.empty()) return {};
	}
	look_kept(c, op.target, op.values, next);
	op.what = "edit";
	return op;
}

//------------------------------------------------------------------------------ Q01
// Whatever a user does, the two views show the board, and the buttons what can be done.
void q01(Ctx& c, Rng& r) {
	if(!start(c, csx::xml(scene_of(r)))) { c.fail("open", "a well-formed file does not open"); return; }
	set_display(c, {});
	monitor_views(c, "after opening");
	for(long n = r.in(4, 12); n-- && c.violations.empty();) {
		std::string what;
		switch(r.in(0, 9)) {
		default: {
			auto const& w = r.pick(walks);
			if(!w.can()) continue;
			what = w.action;
			long times = r.chance(30) ? r.in(1, 6) : 1;
			while(times-- && w.can()) act(c, [&] { W->a(w.action)->trigger(); });
			break;
		}
		case 0: case 1: case 2: {
			auto const op = edit_something(c, r);
			if(!op) continue;
			what = cat(str(op->target), str(op->values));
			break;
		}
		case 3: what = "display"; set_display(c, { r.pick({ ProcessingScene::DisplayMode::EVERYTHING, ProcessingScene::DisplayMode::SELECTED_CHAIN, ProcessingScene::DisplayMode::STRUCTURE_VIEW }), (int)r.in(0, 3), r.pick({ domain::XY, domain::YZ, domain::ZX }) }); break;
		case 4: what = "look"; act(c, [&] { W->a("a_fit")->trigger(); W->tb(r.pick({ "tb_structure_rotate_cw", "tb_structure_rotate_ccw", "tb_structure_zoom_in", "tb_processing_zoom_out", "tb_direct_wires", "tb_curved_wires", "tb_anchor" }))->click(); W->w.grab(); }); break;
		}
		c.input += what + "\n";
		c.count(cat("did ", what.substr(0, what.find(' '))));
		monitor_views(c, what);
	}
	c.nontrivial(hash_bytes(c.input));
	if(c.index < 3) c.sample(c.input.substr(0, 3000));
}

//------------------------------------------------------------------------------ Q02
// The same history, windows or not.
void q02(Ctx& c, Rng& r) {
	auto const xml = csx::xml(scene_of(r));
	if(!start(c, xml)) { c.fail("open", "a well-formed file does not open"); return; }
	set_display(c, { r.chance(50) ? ProcessingScene::DisplayMode::EVERYTHING : ProcessingScene::DisplayMode::SELECTED_CHAIN });
	std::vector<Op> ops { { "open", {}, {}, snapshot(W->board()) } };
	for(long n = r.in(2, 9); n--;) {
		Op op;
		if(r.chance(60)) {
			auto const before = snapshot(W->board());
			auto const* t = Caretaker::singleton().get_current_timepoint();
			auto const o = edit_something(c, r);
			if(!o) continue;
			op = *o;
			if(!op.values.accept || !valid(op.target.kind, op.values)) {
				c.check(t == Caretaker::singleton().get_current_timepoint() && snapshot(W->board()) == before, "ignored-edit", [&] { return cat("a cancelled or invalid edition changes the board: ", str(op.target), str(op.values)); });
				c.count("cancelled or invalid editions");
			} else c.count("editions");
			c.input += cat(str(op.target), str(op.values), "\n");
		} else {
			auto const& w = r.pick(walks);
			if(!w.can()) continue;
			op.what = w.action;
			act(c, [&] { W->a(w.action)->trigger(); });
			c.input += op.what + "\n";
			c.count(cat("did ", op.what));
		}
		op.after = snapshot(W->board());
		ops.push_back(op);
	}
	c.nontrivial(hash_bytes(c.input));
	if(c.index < 3) c.sample(c.input.substr(0, 3000));
	// Leave the document before an other one takes its history.
	Session s(c, xml, "replay.csx");
	if(!s.parsed) return;
	auto& k = Caretaker::singleton();
	for(std::size_t i = 0; i < ops.size(); ++i) {
		auto const& op = ops[i];
		if(op.what == "open") s.app.run_all_steps();
		else if(op.what == "edit") replay_edit(s.board(), s.app, op.target, op.values);
		else if(op.what == "a_undo") k.undo();
		else if(op.what == "a_redo") k.redo();
		else if(op.what == "a_mesh_prev") s.app.go_before_previous_step();
		else if(op.what == "a_mesh_next") s.app.run_next_step();
		k.pin_current_timepoint();
		auto const now = snapshot(s.board());
		c.check(now == op.after, cat("replay-", op.what, op.what == "edit" ? "-" + op.target.kind : ""s), [&] { return cat("operation ", i, " (", op.what == "edit" ? str(op.target) + str(op.values) : op.what, ") gives an other board through the windows: ", first_difference(now, op.after)); });
		if(now != op.after) break;
		c.count("states compared");
	}
	W->oemsh = app::OpenEMSH(W->oemsh.get_params()); // Its board's history is gone.
}

//------------------------------------------------------------------------------ Q03
using Tree = std::map<std::string, std::string>;
Tree tree(std::filesystem::path const& dir) {
	Tree o;
	for(auto const& e : std::filesystem::recursive_directory_iterator(dir))
		o[std::filesystem::relative(e.path(), dir).string()] = e.is_regular_file() ? read_file(e.path()) : "<dir>";
	return o;
}

std::string tree_difference(Tree const& a, Tree const& b, std::string const& except = "") {
	for(auto const& [k, v] : a) {
		if(k == except) continue;
		auto const it = b.find(k);
		if(it == b.end()) return k + " has been removed";
		if(it->second != v) return k + " has been changed";
	}
	for(auto const& [k, v] : b) if(k != except && !a.contains(k)) return k + " has been created";
	return "";
}

void q03(Ctx& c, Rng& r) {
	auto const dir = c.scratch / "docs";
	std::filesystem::remove_all(dir);
	std::filesystem::create_directories(dir);
	auto const tmp = c.scratch / "tmp";
	std::filesystem::remove_all(tmp);
	std::filesystem::create_directories(tmp);
	auto const record = c.scratch / "appcsxcad";
	std::filesystem::remove(record);
	for(char const* f : { "a.csx", "b.xml" }) write_file(dir / f, csx::xml(scene_of(r)));
	write_file(dir / "broken.csx", "<openEMS><ContinuousStructure>");
	write_file(dir / "other.csx", "something else");
	app::OpenEMSH::Params q;
	q.override_from_cli = [](domain::Params&) {};
	q.with_oemsh_params = r.chance(50);
	W->oemsh = app::OpenEMSH(q);

	// What the user can tell.
	std::string document;     // The file that was opened.
	std::string shown;        // The file the window is about: saved as, or opened.
	std::string output;       // Where saving goes.
	bool open = false, unsaved = false, lost = false;
	W->w.show();
	auto done = [&](std::string const& what) { c.input += what + "\n"; c.count(cat("did ", what.substr(0, what.find(' ')))); };

	// What saving there has to write.
	auto expected = [&](std::string const& to) -> std::optional<std::string> {
		auto const p = c.scratch / "expected.csx";
		std::filesystem::remove(p);
		SerializerToCsx::Params sp = W->oemsh.get_params();
		if(!SerializerToCsx::run(const_cast<domain::Board&>(W->board()), dir / document, p, sp).has_value()) return {};
		if(std::filesystem::is_directory(dir / to)) return {};
		return read_file(p);
	};
	// Saves to output (which the dialogs before agreed on), with the questions of it.
	auto plan_write = [&](std::string const& to, bool agree) {
		bool const overwriting = std::filesystem::exists(dir / to)
			|| (to == document && W->board().global_params->get_current_state().has_grid_already);
		if(overwriting) R->expect("overwriting question", "You are about overwriting the file", agree ? QMessageBox::Save : QMessageBox::Cancel);
		else agree = true;
		return agree;
	};
	auto judge = [&](std::string const& what, Tree const& before, std::string const& to, bool agreed, std::optional<std::string> const& content) {
		auto const after = tree(dir);
		if(!agreed || !content) {
			auto const d = tree_difference(before, after);
			c.check(d.empty(), agreed ? "failed-save-writes" : "refused-save-writes", [&] { return cat(what, ": ", d); });
			if(agreed) c.count("failed saves"); else c.count("refused saves");
			return;
		}
		auto const d = tree_difference(before, after, to);
		c.check(d.empty(), "save-touches-others", [&] { return cat(what, ": ", d); });
		c.check(after.contains(to) && after.at(to) == *content, "save-content", [&] { return cat(what, ": ", to, " does not have the document"); });
		c.count("saves");
		unsaved = false;
	};
	auto fails = [&] { R->expect("failure message", "Failed to save file", QMessageBox::Ok); };

	for(long n = r.in(4, 14); n--;) {
		auto const before = tree(dir);
		switch(document.empty() ? 0 : lost && open && r.chance(25) ? 9 : r.in(0, open ? 11 : 2)) {
		case 0: case 1: { // Open.
			std::string const f = r.chance(85) ? r.pick({ "a.csx"s, "b.xml"s }) : "broken.csx"s;
			if(!std::filesystem::is_regular_file(dir / f)) break;
			if(r.chance(15)) { // Not, finally.
				R->expect_file_dialog({}, false);
				act(c, [] { W->a("a_file_open")->trigger(); });
				done("open-cancelled");
				if(open) monitor_views(c, "a cancelled opening");
			} else {
				R->expect_file_dialog(dir / f, true);
				bool const broken = before.at(f) == "<openEMS><ContinuousStructure>" || before.at(f) == "something else";
				if(broken) R->expect("parse failure", "Failed to parse file", QMessageBox::Ok);
				act(c, [] { W->a("a_file_open")->trigger(); });
				done("open " + f);
				document = shown = f;
				open = unsaved = !broken;
				if(open) {
					monitor_views(c, "opening");
					c.check(W->w.windowTitle().contains(QString::fromStdString(f)), "title", [&] { return cat("the window's title is '", W->w.windowTitle().toStdString(), "' after opening ", f); });
				} else {
					c.count("failed openings");
					for(auto const* n : { "a_file_save", "a_file_save_as", "a_edit", "a_fit", "a_mesh_prev", "a_mesh_next", "a_undo", "a_redo", "a_appcsxcad" })
						c.check(!W->a(n)->isEnabled(), "enabled-without-document", [&] { return cat(n, " is enabled when there is no document"); });
				}
			}
			auto const d = tree_difference(before, tree(dir));
			c.check(d.empty(), "open-writes", [&] { return cat("opening: ", d); });
			break;
		}
		case 3: case 4: { // Save.
			std::string to = output.empty() ? shown : output;
			bool agree = true;
			bool const other = !output.empty() && shown != output;
			if(other) {
				agree = r.chance(60);
				R->expect("other file question", "which is different from the input file", agree ? QMessageBox::Save : QMessageBox::Cancel);
				c.count("saves to an other file");
			}
			auto const content = expected(to);
			if(agree) {
				shown = output = to;
				agree = plan_write(to, r.chance(75));
				if(agree && !content) fails();
			}
			act(c, [] { W->a("a_file_save")->trigger(); });
			done(cat("save ", to, agree ? "" : " (refused)"));
			judge("save", before, to, agree, content);
			break;
		}
		case 5: case 6: { // Save as.
			std::string const to = r.pick({ "a.csx"s, "b.xml"s, "new.csx"s, "new"s, "other.csx"s });
			if(r.chance(15)) {
				R->expect_file_dialog({}, false);
				act(c, [] { W->a("a_file_save_as")->trigger(); });
				done("save-as-cancelled");
				judge("cancelled save as", before, to, false, {});
				break;
			}
			auto const real = to == "new" ? "new.csx"s : to;
			if(std::filesystem::is_directory(dir / real)) break;
			R->expect_file_dialog(dir / to, true, std::filesystem::exists(dir / real));
			auto const content = expected(real);
			shown = output = real;
			bool const agree = plan_write(real, r.chance(80));
			if(agree && !content) fails();
			act(c, [] { W->a("a_file_save_as")->trigger(); });
			done(cat("save-as ", real, agree ? "" : " (refused)"));
			judge("save as", before, real, agree, content);
			break;
		}
		case 7: case 8: { // Change the document.
			auto const& w = r.pick(walks);
			if(!w.can()) break;
			act(c, [&] { W->a(w.action)->trigger(); });
			unsaved = true;
			done(w.action);
			break;
		}
		case 9: { // Look at it with an other application.
			auto const content = expected("appcsxcad-is-elsewhere");
			if(!content) R->expect("preview failure message", "Failed to save temporary file", QMessageBox::Ok);
			std::filesystem::remove(record);
			act(c, [&] {
				W->a("a_appcsxcad")->trigger();
				for(auto* p : W->w.findChildren<QProcess*>()) p->waitForFinished(20000);
			});
			done(content ? "appcsxcad" : "appcsxcad-fails");
			auto const d = tree_difference(before, tree(dir));
			c.check(d.empty(), "preview-writes", [&] { return cat("a preview: ", d); });
			if(content) c.check(read_file(record) == *content, "preview-content", [&] { return cat("the preview shows an other document"); });
			c.check(W->oemsh.get_params().output == (output.empty() ? std::filesystem::path() : dir / output), "preview-output", "a preview changes where the document is saved");
			break;
		}
		case 10: { // Something happens to the files.
			if(r.chance(25) || lost) break;
			lost = true;
			if(r.chance(50)) { std::filesystem::remove(dir / document); done("(the document's file is removed)"); }
			else { std::filesystem::remove_all(dir / "new.csx"); std::filesystem::create_directory(dir / "new.csx"); std::filesystem::create_directory(dir / "new.csx" / "full"); done("(a directory takes the place of new.csx)"); }
			break;
		}
		default: { // Close.
			W->w.show();
			bool stays = false;
			bool written = false;
			std::optional<std::string> content;
			std::string to;
			bool agree = false;
			bool const was = unsaved;
			if(unsaved) {
				switch(r.in(0, 2)) {
				case 0: R->expect("unsaved question", "unsaved document", QMessageBox::Cancel); stays = true; break;
				case 1: R->expect("unsaved question", "unsaved document", QMessageBox::Close); break;
				default: {
					R->expect("unsaved question", "unsaved document", QMessageBox::Save);
					to = output.empty() ? shown : output;
					agree = true;
					if(!output.empty() && shown != output) {
						agree = r.chance(60);
						R->expect("other file question", "which is different from the input file", agree ? QMessageBox::Save : QMessageBox::Cancel);
					}
					content = expected(to);
					if(agree) {
						shown = output = to;
						agree = plan_write(to, r.chance(70));
						if(agree && !content) fails();
					}
					stays = !(agree && content);
					written = true;
				}
				}
			}
			bool closed = false;
			act(c, [&] { closed = W->w.close(); });
			done(cat("close ", !was ? "(saved)" : written ? agree && content ? "saving" : "saving fails" : stays ? "cancelled" : "anyway"));
			c.check(closed == !stays, written ? "close-loses" : "close", [&] { return cat("the window ", closed ? "closes" : "stays open", " and should not"); });
			if(written) judge("save while closing", before, to, agree, content);
			else judge("close", before, "", false, {});
			W->w.show();
			c.count("closings");
		}
		}
		if(!c.violations.empty() && c.violations.back().index == c.index) break;
	}
	c.nontrivial(hash_bytes(c.input));
	if(c.index < 3) c.sample(c.input.substr(0, 3000));
}

//------------------------------------------------------------------------------ Q04
void q04(Ctx& c, Rng& r) {
	using Mode = ProcessingScene::DisplayMode;
	if(!start(c, csx::xml(scene_of(r)))) { c.fail("open", "a well-formed file does not open"); return; }
	Display d;
	if(r.chance(50)) d.mode = Mode::STRUCTURE_VIEW;
	if(r.chance(60)) set_display(c, d);
	else { // As the previous document left the buttons.
		auto const checked = [](char const* n) { return W->tb(n)->isChecked(); };
		d.mode = checked("tb_show_everything") ? Mode::EVERYTHING : checked("tb_show_displayed") ? Mode::STRUCTURE_VIEW : Mode::SELECTED_CHAIN;
		d.mesh = checked("tb_show_all_mesh") ? 3 : checked("tb_show_vertical_mesh") ? 2 : checked("tb_show_horizontal_mesh") ? 1 : 0;
		d.plane = checked("tb_plane_xy") ? domain::XY : checked("tb_plane_yz") ? domain::YZ : domain::ZX;
	}
	std::map<void const*, std::pair<Mode, int>> known; // Each state keeps its own modes.
	auto here = [] { return (void const*)Caretaker::singleton().get_current_timepoint(); };
	known[here()] = { d.mode, d.mesh };
	monitor_display(c, d, "after opening");
	c.count("documents displayed");
	for(long n = r.in(4, 14); n--;) {
		std::string what;
		long const k = r.in(0, 11);
		if(k < 3) {
			auto const all = nodes_of(W->ps());
			std::vector<ng::Node*> v;
			for(auto* m : all) if(m->isVisible()) v.push_back(m);
			what = "select in processing";
			if(v.empty()) continue;
			std::vector<ng::Node*> sel;
			for(long m = r.in(0, 3); m--;) sel.push_back(r.pick(v));
			act(c, [&] {
				W->ps()->clearSelection();
				settle();
				for(auto* m : sel) { if(m->isVisible()) m->setSelected(true); settle(); }
			});
		} else if(k < 6) {
			std::vector<QGraphicsItem*> v;
			for(auto* i : W->ss()->items()) if(i->data(keys::ID).isValid() && i->isVisible()) v.push_back(i);
			what = "select in structure";
			if(v.empty()) continue;
			std::ranges::sort(v, {}, [](auto* i) { return std::pair(i->data(keys::TYPE).toString(), i->data(keys::ID).toULongLong()); });
			std::vector<QGraphicsItem*> sel;
			for(long m = r.in(1, 3); m--;) sel.push_back(r.pick(v));
			act(c, [&] {
				W->ss()->clearSelection();
				settle();
				for(auto* m : sel) { m->setSelected(true); settle(); }
			});
			for(auto* m : nodes_of(W->ps())) if(m->isSelected()) d.revealed.insert(root_of(m));
			std::set<std::size_t> want;
			for(auto* m : sel) want.insert(m->data(keys::ID).toULongLong());
			auto const got = selection(W->ps());
			c.check(got == want, "select-structure", [&] { return cat("selecting ", str(want), " in the structure view selects ", str(got), " in the processing view"); });
		} else if(k <= 8) {
			auto const& w = r.pick(walks);
			if(!w.can()) continue;
			what = w.action;
			auto const from = here();
			act(c, [&] { W->a(w.action)->trigger(); });
			if(here() != from) {
				if(known.contains(here())) std::tie(d.mode, d.mesh) = known[here()];
				else known[here()] = { d.mode, d.mesh };
			}
		} else {
			auto const before = selection(W->ps());
			for(auto* m : nodes_of(W->ps())) d.revealed.erase(m);
			switch(r.in(0, 2)) {
			case 0: d.mode = r.pick({ Mode::EVERYTHING, Mode::SELECTED_CHAIN, Mode::STRUCTURE_VIEW }); what = cat("mode ", (int)d.mode);
				act(c, [&] { W->tb(d.mode == Mode::EVERYTHING ? "tb_show_everything" : d.mode == Mode::STRUCTURE_VIEW ? "tb_show_displayed" : "tb_show_selected")->click(); });
				if(d.mode != Mode::STRUCTURE_VIEW) {
					auto const after = selection(W->ps());
					c.check(before == after, "mode-selection", [&] { return cat("changing the mode to ", (int)d.mode, " changes the selection from ", str(before), " to ", str(after)); });
				}
				break;
			case 1: d.mesh = (int)r.in(0, 3); what = cat("mesh ", d.mesh); act(c, [&] { W->tb(d.mesh == 3 ? "tb_show_all_mesh" : d.mesh == 2 ? "tb_show_vertical_mesh" : d.mesh == 1 ? "tb_show_horizontal_mesh" : "tb_show_no_mesh")->click(); }); break;
			default:
				if(r.chance(50)) { d.plane = r.pick({ domain::XY, domain::YZ, domain::ZX }); what = cat("plane ", (int)d.plane); act(c, [&] { W->tb(d.plane == domain::XY ? "tb_plane_xy" : d.plane == domain::YZ ? "tb_plane_yz" : "tb_plane_zx")->click(); }); }
				else {
					bool const up = r.chance(50);
					d.plane = d.plane == domain::XY ? (up ? domain::ZX : domain::YZ) : d.plane == domain::ZX ? (up ? domain::YZ : domain::XY) : (up ? domain::XY : domain::ZX);
					what = up ? "page up" : "page down";
					act(c, [&] { QTest::keyClick(&W->w, up ? Qt::Key_PageUp : Qt::Key_PageDown); });
				}
			}
			known[here()] = { d.mode, d.mesh };
		}
		c.input += what + "\n";
		c.count(cat("did ", what.substr(0, what.find(' '))));
		monitor_display(c, d, what);
		monitor_selection(c, what);
		if(!c.violations.empty() && c.violations.back().index == c.index) break;
	}
	c.nontrivial(hash_bytes(c.input));
	if(c.index < 3) c.sample(c.input.substr(0, 3000));
}

//------------------------------------------------------------------------ Q05
// What a message and its choices must look like, told apart from the code.
QMessageBox::StandardButton button_of(Logger::UserAction a) {
	switch(a) {
	case Logger::UserAction::CANCEL: return QMessageBox::Cancel;
	case Logger::UserAction::OK: return QMessageBox::Ok;
	case Logger::UserAction::SAVE: return QMessageBox::Save;
	case Logger::UserAction::CLOSE: return QMessageBox::Close;
	case Logger::UserAction::ABORT: return QMessageBox::Abort;
	default: return QMessageBox::NoButton;
	}
}

std::string letter_of(Logger::UserAction a) {
	switch(a) {
	case Logger::UserAction::CANCEL: return "n";
	case Logger::UserAction::OK: return "y";
	case Logger::UserAction::SAVE: return "s";
	case Logger::UserAction::CLOSE: return "c";
	case Logger::UserAction::ABORT: return "a";
	default: return "";
	}
}

std::string words(Rng& r, bool may_be_empty = true) {
	std::string o;
	for(long n = r.in(may_be_empty ? 0 : 1, 4); n--;) o += r.pick({ "file", " \"a b.csx\"", " is {0} lost", "é", " 100%", " %1 %s", "<b>bold</b>", " &amp", "\nnext" });
	return may_be_empty || !o.empty() ? o : "word";
}

void q05(Ctx& c, Rng& r) {
	QWidget parent;
	QStatusBar bar(&parent);
	parent.resize(600, 100);
	parent.show();
	bool const interactive = r.chance(70), verbose = r.chance(50);
	// Each sink in a logger of its own, so that each gives its answer.
	Logger window, terminal;
	window.register_sink(1, std::make_unique<ui::qt::LoggerSink>(&bar, &parent), interactive);
	terminal.register_sink(1, std::make_unique<ui::cli::LoggerSink>(verbose), interactive);
	struct Shown { std::unique_ptr<ui::qt::ProgressBar> bar; std::string label; long max, last; bool done; QPointer<QProgressBar> shown; };
	std::vector<Shown> bars;
	static char const* const levels[] = { "Question", "Info", "Warning", "Error" };
	static QMessageBox::Icon const icons[] = { QMessageBox::Question, QMessageBox::Information, QMessageBox::Warning, QMessageBox::Critical };
	std::vector<Logger::UserAction> const all { Logger::UserAction::CANCEL, Logger::UserAction::OK, Logger::UserAction::SAVE, Logger::UserAction::CLOSE, Logger::UserAction::ABORT };
	for(long n = r.in(3, 12); n--;) {
		if(r.chance(55)) {
			Logger::LogEvent e;
			int const level = (int)r.in(0, 3);
			e.level = (Logger::Level)level;
			for(auto a : all) if(r.chance(level == 0 ? 50 : 20)) e.user_actions.insert(a);
			if(level == 0 && e.user_actions.empty()) e.user_actions.insert(Logger::UserAction::OK);
			std::vector<Logger::UserAction> const given(e.user_actions.begin(), e.user_actions.end());
			if(!given.empty() && r.chance(50)) e.default_user_action = r.pick(given);
			e.message = words(r, false);
			if(r.chance(50)) e.informative = words(r);
			if(r.chance(50)) e.details = words(r);
			bool const asks = !given.empty();
			auto const answer = asks ? r.pick(given) : Logger::UserAction::NOTHING;
			c.input += cat(levels[level], " ", given.size(), " choices, default ", e.default_user_action ? letter_of(*e.default_user_action) : "-", ", answer ", letter_of(answer), " interactive ", interactive, "\n", e.message, "|", e.informative, "|", e.details, "\n");
			// In the window.
			if(asks) R->script.push_back({ "a message", [&, level](QWidget* d) {
				auto* m = qobject_cast<QMessageBox*>(d);
				if(!m) return false;
				c.check(m->text() == QString::fromStdString(e.message), "window-message", [&] { return cat("shows ", m->text().toStdString(), " for ", e.message); });
				c.check(m->informativeText() == QString::fromStdString(e.informative), "window-message", [&] { return cat("shows ", m->informativeText().toStdString(), " for ", e.informative); });
				c.check(m->detailedText() == QString::fromStdString(e.details), "window-message", [&] { return cat("details ", m->detailedText().toStdString(), " for ", e.details); });
				c.check(m->icon() == icons[level], "window-level", [&] { return cat("icon ", (int)m->icon(), " for ", levels[level]); });
				QMessageBox::StandardButtons want = QMessageBox::NoButton;
				if(interactive) for(auto a : given) want |= button_of(a);
				else want = QMessageBox::Ignore;
				c.check(m->standardButtons() == want, "window-choices", [&] { return cat("choices ", (int)m->standardButtons(), " instead of ", (int)want); });
				if(interactive && e.default_user_action) c.check(m->defaultButton() == m->button(button_of(*e.default_user_action)), "window-default", "another default choice");
				auto* b = m->button(interactive ? button_of(answer) : QMessageBox::Ignore);
				if(!b) { Robot::dismiss(m); return true; }
				c.count("questions in the window");
				b->click();
				return true;
			} });
			Logger::UserAction got = Logger::UserAction::NOTHING;
			act(c, [&] { got = window.log(e); });
			c.check(got == (asks && interactive ? answer : Logger::UserAction::NOTHING), "window-answer", [&] { return cat("answer ", letter_of(got), " instead of ", letter_of(answer)); });
			if(!asks) {
				c.check(bar.currentMessage() == QString::fromStdString(e.message), "status", [&] { return cat("status bar shows ", bar.currentMessage().toStdString(), " for ", e.message); });
				c.count("messages in the status bar");
			}
			// In the terminal, after wrong answers.
			bool const questions = interactive && level == 0 && asks;
			bool const ends = questions && r.chance(15);
			std::string typed;
			long wrong = 0;
			if(questions) {
				for(; r.chance(30); ++wrong) {
					// Letters of choices that are not offered are no more an answer than other words.
					std::string t = r.pick({ "", "yes", "Y", " y", "q", "1", "n", "y", "s", "c", "a" });
					if(std::ranges::any_of(given, [&](auto a) { return letter_of(a) == t; })) t += t;
					typed += t + "\n";
				}
				if(ends) c.count("questions left unanswered");
				else typed += letter_of(answer) + (r.chance(80) ? "\nn\n" : "");
			}
			std::istringstream in(typed);
			// Something that would go on forever is stopped.
			struct Bounded : std::streambuf {
				std::string text;
				int overflow(int k) override { if(text.size() > 100'000) throw std::length_error("endless"); text += (char)k; return k; }
				std::streamsize xsputn(char const* s, std::streamsize n) override { if(text.size() > 100'000) throw std::length_error("endless"); text.append(s, (std::size_t)n); return n; }
			} out;
			auto* const i = std::cin.rdbuf(in.rdbuf());
			auto* const o = std::cerr.rdbuf(&out);
			std::cerr.exceptions(std::ios::badbit);
			try {
				got = terminal.log(e);
			} catch(std::exception const&) {
				c.fail("terminal-endless", cat("asks again and again once the input has ended, after ", typed));
			}
			std::cerr.exceptions(std::ios::goodbit);
			std::cin.rdbuf(i);
			std::cerr.rdbuf(o);
			std::cin.clear();
			std::cerr.clear();
			auto const t = out.text;
			bool const quiet = level == 1 && !verbose;
			c.check(got == (questions && !ends ? answer : Logger::UserAction::NOTHING), "terminal-answer", [&] { return cat("answer ", letter_of(got), " instead of ", letter_of(answer), " to ", typed); });
			if(quiet) {
				c.check(t.empty(), "terminal-quiet", [&] { return "tells " + t; });
				c.count("quiet messages");
			} else {
				auto const at = t.find(cat(levels[level], ": ", e.message)), in1 = t.find(e.informative, at + e.message.size()), in2 = t.find(e.details, in1 + e.informative.size());
				c.check(at != std::string::npos && in1 != std::string::npos && in2 != std::string::npos, "terminal-message", [&] { return cat("tells ", t); });
				c.check(!t.empty() && (questions || t.back() == '\n'), "terminal-line", [&] { return cat("tells ", t, " without an end"); });
				c.count("messages in the terminal");
			}
			if(questions) {
				long asked = 0;
				auto const all_letters = [&] { std::string l; for(auto a : given) l += (l.empty() ? "" : "/") + letter_of(a); return "[" + l + "]"; }();
				for(std::size_t k = 0; (k = t.find(all_letters, k)) != std::string::npos; ++k) ++asked;
				c.check(asked == wrong + 1, "terminal-choices", [&] { return cat("asks ", asked, " times ", all_letters, " for ", wrong, " wrong answers: ", t); });
				c.count("questions in the terminal");
			}
		} else if(bars.empty()) { // One at a time, without message: Qt itself hides or forgets others.
			bar.clearMessage();
			Shown s { nullptr, cat("work ", n), r.chance(15) ? 0 : r.in(1, 40), 0, false, nullptr };
			auto const before = bar.findChildren<QProgressBar*>();
			s.bar = std::make_unique<ui::qt::ProgressBar>(&bar, (std::size_t)s.max, QString::fromStdString(s.label));
			for(auto* q : bar.findChildren<QProgressBar*>()) if(!before.contains(q)) s.shown = q;
			bars.push_back(std::move(s));
			c.input += "new bar\n";
		} else if(!bars.empty()) {
			auto& s = bars[(std::size_t)r.in(0, (long)bars.size() - 1)];
			auto widget = [&]() -> QProgressBar* {
				for(auto* l : bar.findChildren<QLabel*>())
					if(s.shown && l->text().toStdString() == s.label && l->isHidden() == s.shown->isHidden()) return s.shown;
				return nullptr;
			};
			bar.clearMessage(); // It hides them.
			if(s.done || r.chance(15)) {
				c.input += "no more bar\n";
				bars.erase(bars.begin() + (&s - bars.data()));
			} else if(r.chance(20)) {
				c.input += "complete\n";
				s.bar->complete();
				s.done = true;
				auto* w = widget();
				c.check(w && w->isHidden(), "bar-completed", "a completed bar is still shown");
				c.count("bars completed");
			} else {
				bool const two = r.chance(50);
				for(; s.last < s.max; ++s.last) {
					if(two) s.bar->tick((std::size_t)(s.last / 2), (std::size_t)s.last); else s.bar->tick((std::size_t)s.last);
					auto* w = widget();
					if(!w) { c.fail("bar", "the bar or its label is not shown"); break; }
					c.check(w->minimum() == 0 && w->maximum() == s.max, "bar-range", "another range");
					c.check(w->value() == s.last + 1, "bar-value", [&] { return cat("shows ", w->value(), " of ", s.max, " after ", s.last + 1); });
					c.check(!w->isHidden(), "bar-hidden", "a bar is hidden while working");
					c.count("ticks");
					if(r.chance(10)) { ++s.last; break; }
				}
			}
		}
		if(!c.violations.empty() && c.violations.back().index == c.index) break;
	}
	bars.clear();
	c.check(bar.findChildren<QProgressBar*>().empty() && bar.findChildren<QLabel*>().empty(), "bars-left", "bars are left in the status bar");
	c.nontrivial(hash_bytes(c.input));
	if(c.index < 3) c.sample(c.input.substr(0, 3000));
}

} // namespace

int main(int argc, char** argv) {
	std::filesystem::path scratch;
	for(int i = 1; i + 1 < argc; ++i) if(argv[i] == "--scratch"s) scratch = argv[i + 1];
	if(scratch.empty()) scratch = std::filesystem::temp_directory_path() / cat("vf-qt-", getpid());
	std::filesystem::create_directories(scratch / "tmp");
	std::filesystem::create_directories(scratch / "home");
	std::filesystem::create_directories(scratch / "bin");
	std::filesystem::create_directories(scratch / "run");
	std::filesystem::permissions(scratch / "run", std::filesystem::perms::owner_all);
	write_file(scratch / "bin" / "AppCSXCAD", "#!/bin/sh\n[ \"$1\" = --disableEdit ] && /bin/cat \"$2\" > " + (scratch / "appcsxcad").string() + "\n");
	chmod((scratch / "bin" / "AppCSXCAD").c_str(), 0755);
	setenv("PATH", ((scratch / "bin").string() + ":/usr/bin:/bin").c_str(), 1);
	setenv("TMPDIR", (scratch / "tmp").c_str(), 1);
	setenv("HOME", (scratch / "home").c_str(), 1);
	setenv("XDG_CONFIG_HOME", (scratch / "home").c_str(), 1);
	setenv("XDG_RUNTIME_DIR", (scratch / "run").c_str(), 1);
	setenv("QT_QPA_PLATFORM", "offscreen", 1);
	int one = 1;
	char* none[] = { argv[0], nullptr };
	QApplication a(one, none);
	QApplication::setQuitOnLastWindowClosed(false);
	QApplication::setAttribute(Qt::AA_DontUseNativeDialogs);
	setlocale(LC_NUMERIC, "C");
	Robot robot;
	R = &robot;
	Win win;
	W = &win;
	settle();
	int const rc = run_main(argc, argv, { { { "Q01", q01 }, { "Q02", q02 }, { "Q03", q03 }, { "Q04", q04 }, { "Q05", q05 } }, {} });
	fflush(nullptr);
	_exit(rc); // The window's sinks outlive it otherwise.
}
