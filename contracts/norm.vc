fn norm::Norm[ArrayBase]::norm_l1
@ret r
@spec
F:ensures r.v() == sum1(self.els()),
@closure 0 |x: &Fl| -> (z: Fl)
F:ensures z.v() == rabs(x.v()),
F{
@bindtail res
@ghost end
  proof {
    let t = choose|t: Seq<Fl>| t.len() == self.els().len() && (forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).v() == rabs(self.els()[k])) && res.v() == crate::std_shim::seqsum(t);
    sum1_ok(t, self.els());
  }
F}
fn norm::Norm[ArrayBase]::norm_l2
@ret r
@spec
F:ensures is_sqrt(r.v(), sum2(self.els())),
@closure 0 |x: &Fl| -> (z: Fl)
F:ensures z.v() == x.v() * x.v(),
F{
@bindtail res
@ghost end
  proof {
    let t = choose|t: Seq<Fl>| t.len() == self.els().len() && (forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).v() == self.els()[k] * self.els()[k]) && (crate::std_shim::seqsum(t) >= 0real ==> is_sqrt(res.v(), #[trigger] crate::std_shim::seqsum(t)));
    sum2_ok(t, self.els());
  }
F}
fn norm::Norm[ArrayBase]::norm_max
@ret r
@spec
F:ensures is_max(r.v(), self.els()),
@closure 0 |f: Fl, val: &Fl| -> (z: Fl)
F:ensures z.v() == rmax(rabs(val.v()), f.v()),
F{
@bindtail res
@ghost end
  proof {
    let acc = choose|acc: Seq<Fl>| #![trigger acc.len()] fold_max(acc, self.els(), res);
    max_ok(acc, self.els(), self.els().len() as int);
    assert(self.els().subrange(0, self.els().len() as int) =~= self.els());
  }
F}
