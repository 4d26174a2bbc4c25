//! Compares the syntax tree with the model.
use crate::inproc::span;
use crate::model::*;
use crate::toks::Pos;
use ginko::dts::verif as v;
use ginko::dts::{AnyDirective, HasSpan, Node, NodeItem, NodePayload, Primary, Project, Span};
use std::path::Path;

pub struct Cmp<'a> {
    pub m: &'a FileM,
    /// compare positions
    pub spans: bool,
    pub facts: usize,
}

macro_rules! same {
    ($self:ident, $what:expr, $want:expr, $got:expr) => {{
        $self.facts += 1;
        let (want, got) = (&$want, &$got);
        if want != got {
            return Err(format!("{}: expected {:?}, got {:?}", $what, want, got));
        }
    }};
}

impl Cmp<'_> {
    fn toks(&self, a: usize, b: usize) -> (Pos, Pos) {
        (self.m.laid.start(a), self.m.laid.end(b))
    }

    fn span_is(&mut self, what: &str, a: usize, b: usize, got: Span) -> Result<(), String> {
        if self.spans {
            let want = self.toks(a, b);
            same!(self, format!("position of {what} '{}'", self.m.toks[a].s), want, span(got));
        }
        Ok(())
    }

    fn reference(&mut self, id: usize, got: &v::Reference, s: Span) -> Result<(), String> {
        let m = self.m;
        let r = &m.refs[id];
        match (&r.r, got) {
            (RefM::Label(l), v::Reference::Label(g)) => same!(self, "reference", l, g),
            (RefM::Path(p), v::Reference::Path(g)) => {
                let g: Vec<String> = g.iter().map(|e| e.to_string()).collect();
                same!(self, "path reference", *p, g);
                let parts: Vec<(String, Option<String>)> = p
                    .iter()
                    .map(|e| match e.split_once('@') {
                        Some((a, b)) => (a.to_string(), Some(b.to_string())),
                        None => (e.clone(), None),
                    })
                    .collect();
                same!(self, "path reference", parts.len(), g.len());
            }
            (w, g) => return Err(format!("reference: expected {w:?}, got {g:?}")),
        }
        self.span_is("reference", r.tok, r.tok, s)
    }

    fn value(&mut self, val: &ValM, got: &v::PropertyValue) -> Result<(), String> {
        match (val, got) {
            (ValM::Str { s, tok, exact }, v::PropertyValue::String(g)) => {
                if *exact {
                    same!(self, "string", *s, *g.item());
                }
                self.span_is("string", *tok, *tok, g.span())?;
            }
            (ValM::Cells { open, cells, close }, v::PropertyValue::Cells(_, gc, _)) => {
                self.span_is("cells", *open, *close, got.span())?;
                same!(self, "number of cells", cells.len(), gc.len());
                for (c, g) in cells.iter().zip(gc) {
                    match (c, g) {
                        (CellM::Num(n, t), v::Cell::Number(g)) => {
                            same!(self, format!("cell '{}'", self.m.toks[*t].s), *n, *g.item());
                            self.span_is("number", *t, *t, g.span())?;
                        }
                        (CellM::Ref(r), v::Cell::Reference(g)) => self.reference(*r, g.item(), g.span())?,
                        (CellM::Expr, v::Cell::Expression) => self.facts += 1,
                        (w, g) => return Err(format!("cell: expected {w:?}, got {g:?}")),
                    }
                }
            }
            (ValM::Ref(r), v::PropertyValue::Reference(g)) => self.reference(*r, g.item(), g.span())?,
            (ValM::Bytes { open, groups, close }, v::PropertyValue::ByteStrings(_, gg, _)) => {
                self.span_is("bytes", *open, *close, got.span())?;
                same!(self, "number of byte groups", groups.len(), gg.len());
                for ((b, t), g) in groups.iter().zip(gg) {
                    same!(self, format!("bytes '{}'", self.m.toks[*t].s), *b, *g.item());
                    self.span_is("bytes", *t, *t, g.span())?;
                }
            }
            (w, g) => return Err(format!("value: expected {w:?}, got {g:?}")),
        }
        Ok(())
    }

    fn label(&mut self, l: &Option<LabelM>, got: Option<(String, Span)>) -> Result<(), String> {
        let want = l.as_ref().map(|l| l.text.clone());
        same!(self, "label", want, got.as_ref().map(|g| g.0.clone()));
        if let (Some(l), Some(g)) = (l, got) {
            self.span_is("label", l.tok, l.tok, g.1)?;
        }
        Ok(())
    }

    fn prop(&mut self, p: &PropM, g: &v::Property) -> Result<(), String> {
        self.label(&p.label, g.label.as_ref().map(|l| (l.item().clone(), l.span())))?;
        same!(self, "property name", p.name, *g.name.item());
        self.span_is("property name", p.name_tok, p.name_tok, g.name.span())?;
        if let Some(e) = p.end {
            let first = p.label.as_ref().map(|l| l.tok).unwrap_or(p.name_tok);
            self.span_is("property", first, e, g.span())?;
        }
        same!(self, format!("number of values of '{}'", p.name), p.vals.len(), g.values.len());
        for (v, g) in p.vals.iter().zip(&g.values) {
            self.value(v, g).map_err(|e| format!("in property '{}': {e}", p.name))?;
        }
        Ok(())
    }

    fn body(&mut self, b: &BodyM, g: &NodePayload) -> Result<(), String> {
        same!(self, "number of items", b.items.len(), g.items.len());
        for (it, g) in b.items.iter().zip(&g.items) {
            match (it, g) {
                (ItemM::Prop(p), NodeItem::Property(g)) => self.prop(p, g)?,
                (ItemM::Node(n), NodeItem::Node(g)) => self.node(n, g)?,
                (ItemM::DelNode { kw, name, tok }, NodeItem::DeletedNode(gk, g)) => {
                    same!(self, "deleted node", *name, g.item().to_string());
                    self.span_is("directive", *kw, *kw, gk.span())?;
                    self.span_is("deleted node", *tok, *tok, g.span())?;
                }
                (ItemM::DelProp { kw, name, tok }, NodeItem::DeletedProperty(gk, g)) => {
                    same!(self, "deleted property", *name, *g.item());
                    self.span_is("directive", *kw, *kw, gk.span())?;
                    self.span_is("deleted property", *tok, *tok, g.span())?;
                }
                (w, g) => return Err(format!("item: expected {w:?}, got {g:?}")),
            }
        }
        Ok(())
    }

    fn node(&mut self, n: &NodeM, g: &Node) -> Result<(), String> {
        same!(self, "omit-if-no-ref", n.omit.is_some(), g.omit_if_no_ref.is_some());
        if let (Some(w), Some(g)) = (n.omit, &g.omit_if_no_ref) {
            self.span_is("directive", w, w, g.span())?;
        }
        self.label(&n.label, g.label.as_ref().map(|l| (l.item().clone(), l.span())))?;
        same!(self, "node name", n.base, g.name.item().name);
        same!(self, "unit address", n.unit, g.name.item().unit_address);
        self.span_is("node name", n.name_tok, n.name_tok, g.name.span())?;
        if n.body.end.is_some() {
            let first = n.label.as_ref().map(|l| l.tok).unwrap_or(n.name_tok);
            self.span_is("node", first, n.body.last(), g.span())?;
        }
        self.body(&n.body, &g.payload).map_err(|e| format!("in node '{}': {e}", n.base))
    }

    pub fn file(&mut self, g: &v::DtsFile) -> Result<(), String> {
        let m = self.m;
        same!(self, "number of top-level elements", m.tops.len(), g.elements.len());
        for (t, g) in m.tops.iter().zip(&g.elements) {
            match (t, g) {
                (TopM::Header { tok }, Primary::Directive(AnyDirective::DtsHeader(g))) => {
                    self.span_is("directive", *tok, *tok, g.span())?
                }
                (TopM::Plugin { tok }, Primary::Directive(AnyDirective::Plugin(g))) => {
                    self.span_is("directive", *tok, *tok, g.span())?
                }
                (TopM::Memreserve { addr, len }, Primary::Directive(AnyDirective::Memreserve(g))) => {
                    same!(self, "memreserve", (*addr, *len), g.verif_parts());
                }
                (TopM::Include { kw, tok, file }, Primary::Directive(AnyDirective::Include(g))) => {
                    same!(self, "include", *file, *g.file_name.item());
                    self.span_is("include", *kw, *tok, g.span())?;
                    self.span_is("include file", *tok, *tok, g.file_name.span())?;
                }
                (TopM::Del { kw, r }, Primary::Directive(AnyDirective::DeletedNode(gk, g))) => {
                    self.span_is("directive", *kw, *kw, gk.span())?;
                    self.reference(*r, g.item(), g.span())?;
                }
                (TopM::Omit { kw, r }, Primary::Directive(AnyDirective::OmitIfNoRef(gk, g))) => {
                    self.span_is("directive", *kw, *kw, gk.span())?;
                    self.reference(*r, g.item(), g.span())?;
                }
                (TopM::Root(n), Primary::Root(g)) => self.node(n, g)?,
                (TopM::RefNode { r, body }, Primary::ReferencedNode(g)) => {
                    self.reference(*r, g.reference.item(), g.reference.span())?;
                    if body.end.is_some() {
                        let first = m.refs[*r].tok;
                        self.span_is("referenced node", first, body.last(), g.span())?;
                    }
                    self.body(body, &g.payload)?;
                }
                (w, g) => return Err(format!("element: expected {w:?}, got {g:?}")),
            }
        }
        Ok(())
    }
}

/// Compares the syntax tree with the model. Returns the number of compared facts.
pub fn compare(m: &FileM, project: &Project, path: &Path, spans: bool) -> Result<usize, String> {
    let Some(root) = project.get_root(path) else {
        return Err("the file could not be parsed".to_string());
    };
    let mut c = Cmp { m, spans, facts: 0 };
    c.file(root)?;
    Ok(c.facts)
}
