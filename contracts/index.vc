fn index::at
@ret r
@spec
  requires inb(self.m(), index.r(), index.c()),
  ensures r.v() == self.m().at(index.r(), index.c()),
fn index::atm
@ret r
@spec
  requires inb(old(self).m(), index.r(), index.c()),
  ensures r.v() == old(self).m().at(index.r(), index.c()), final(self).fin() == old(self).fin(),
    final(self).m() == set(old(self).m(), index.r(), index.c(), final(r).v()),
fn root::check_square
@ret r
@spec
  ensures r is Ok <==> arr.m().nr == arr.m().nc, r matches Ok(n) ==> n == arr.m().nr,
    r matches Err(e) ==> e == (LinalgError::NotSquare { rows: arr.m().nr as usize, cols: arr.m().nc as usize }),
