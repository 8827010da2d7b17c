id="C12-ref-outlives-vec"
property="C12"
needs="a caller that keeps the typed reference past a change or the end of the vector"
breaks="the typed element reference of a copying vector carries a lifetime the caller chooses, so it may dangle"
edits=[("src/vec_copy.rs","pub fn get_ref_as<T: Any>(&self, i: usize) -> Option<&T> {","pub fn get_ref_as<'r, T: Any>(&self, i: usize) -> Option<&'r T> {")]
allowed='''
fn main(){ let v: dync::VecCopy = dync::VecCopy::from_vec(vec![1i32,2]); let r: &i32 = v.get_ref_as::<i32>(0).unwrap(); println!("{}", r); drop(v); }
'''
forbidden='''
fn main(){ let v: dync::VecCopy = dync::VecCopy::from_vec(vec![1i32,2]); let r: &i32 = v.get_ref_as::<i32>(0).unwrap(); drop(v); println!("{}", r); }
'''
