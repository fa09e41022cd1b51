From 1c699e99dfb59894cb848c790e8c8ba612f631e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 1/4] fix: an empty interval contains no value and intersects
 nothing

---
 src/interval/interval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index adf8f6d..a257d21 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -509,7 +509,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn contains_val(&self, val: &T) -> bool {
-        !(self > val || self < val)
+        !(self.is_empty() || self > val || self < val)
     }
 
     /**
@@ -658,7 +658,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn intersects(&self, other: &Self) -> bool {
-        !(self > other || self < other)
+        !(self.is_empty() || other.is_empty() || self > other || self < other)
     }
 
     /**
-- 
2.43.0


From 947b9d1dafdbd264a960f87f4543b22ecc249918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 2/4] fix: lower and upper bounds are never equal, so !=
 between them is true

---
 src/interval/bounds.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/interval/bounds.rs b/src/interval/bounds.rs
index 8d1e315..583e090 100644
--- a/src/interval/bounds.rs
+++ b/src/interval/bounds.rs
@@ -343,10 +343,6 @@ impl <T> PartialEq<UpperBound<T>> for LowerBound<T> where T: Ord {
     fn eq(&self, _other: &UpperBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &UpperBound<T>) -> bool {
-        false
-    }
 }
 
 
@@ -664,10 +660,6 @@ impl <T> PartialEq<LowerBound<T>> for UpperBound<T> where T: Ord {
     fn eq(&self, _other: &LowerBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &LowerBound<T>) -> bool {
-        false
-    }
 }
 
 impl <T> PartialOrd<T> for UpperBound<T> where T: Ord {
-- 
2.43.0


From 17e3f07fe716c79ccfc5d49d2c8d74f307579a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 3/4] fix: cloning a CircularBuffer clones only the stored
 elements

---
 src/circular_buffer/circular.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index e2e8d09..748e776 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -46,7 +46,6 @@ fn main(){
 }
 ```
 */
-#[derive(Clone)]
 pub struct CircularBuffer<T> {
     buffer: Box<[ManuallyDrop<T>]>,
     start: usize,
@@ -753,6 +752,15 @@ impl<T> CircularBuffer<T> {
     }
 }
 
+impl<T> Clone for CircularBuffer<T> where T: Clone {
+    fn clone(&self) -> Self {
+        //only the stored elements can be cloned, remaining places are uninitialized
+        let mut cloned = Self::with_capacity(self.capacity());
+        cloned.extend(self.iter());
+        cloned
+    }
+}
+
 impl<T> Drop for CircularBuffer<T> {
     fn drop(&mut self) {
         self.clear();
-- 
2.43.0


From 5aca6713b9e3080d3b29f2eaee27b3d1a3a894f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 4/4] fix: keep unused CircularBuffer places as MaybeUninit
 instead of mem::uninitialized

---
 src/circular_buffer/circular.rs | 53 ++++++++++++++-------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 748e776..e9e404f 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -1,4 +1,4 @@
-use std::mem::{ManuallyDrop, uninitialized, swap, drop, transmute};
+use std::mem::{MaybeUninit, swap, drop, transmute};
 use std::ops::{Index, IndexMut};
 use std::iter::{Extend, FromIterator, IntoIterator};
 use std::cmp::{Ord, PartialEq, Eq, PartialOrd, Ordering};
@@ -47,7 +47,7 @@ fn main(){
 ```
 */
 pub struct CircularBuffer<T> {
-    buffer: Box<[ManuallyDrop<T>]>,
+    buffer: Box<[MaybeUninit<T>]>,
     start: usize,
     end:usize
 }
@@ -89,7 +89,7 @@ impl<T> CircularBuffer<T> {
 
         let mut buffer = Vec::with_capacity(capacity+1);
         for _ in 0..capacity+1 {
-            buffer.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            buffer.push(MaybeUninit::uninit());
         }
         Self {
             buffer: buffer.into_boxed_slice(),
@@ -168,10 +168,10 @@ impl<T> CircularBuffer<T> {
         } else {
             0
         };
-        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| ManuallyDrop::new(x)));
+        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| MaybeUninit::new(x)));
         let elem_num = new_buf.len();
         for _ in 0..capacity -new_buf.len() + 1{
-            new_buf.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            new_buf.push(MaybeUninit::uninit());
         }
         new_buf.shrink_to_fit();
         self.buffer = new_buf.into_boxed_slice();
@@ -477,7 +477,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(0)])
+            Some(unsafe{self.buffer[self.internal_index(0)].assume_init_ref()})
         }
     }
 
@@ -502,7 +502,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut *self.buffer[self.internal_index(0)])
+            Some(unsafe{self.buffer[self.internal_index(0)].assume_init_mut()})
         }
     }
 
@@ -526,7 +526,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(self.len()-1)])
+            Some(unsafe{self.buffer[self.internal_index(self.len()-1)].assume_init_ref()})
         }
     }
 
@@ -551,7 +551,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut * self.buffer[self.internal_index(self.len()-1)])
+            Some(unsafe{self.buffer[self.internal_index(self.len()-1)].assume_init_mut()})
         }
     }
 
@@ -582,7 +582,7 @@ impl<T> CircularBuffer<T> {
             (&self.buffer[self.start..], &self.buffer[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //all elements in range are initialized, MaybeUninit is a zero-cost wrapper, can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -619,7 +619,7 @@ impl<T> CircularBuffer<T> {
             (y,  &mut x[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //all elements in range are initialized, MaybeUninit is a zero-cost wrapper, can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -644,7 +644,7 @@ impl<T> CircularBuffer<T> {
         self.buffer.rotate_left(self.start);
         self.end = self.len();
         self.start = 0;
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //all elements in range are initialized, MaybeUninit is a zero-cost wrapper, can be safely converted into slice of T
         unsafe{transmute(&mut self.buffer[..self.end])}
     }
 
@@ -741,14 +741,14 @@ impl<T> CircularBuffer<T> {
 
     fn pop_at(&mut self, index: usize) -> T {
         //replace place in the array with uninitialized object
-        let mut tmp = ManuallyDrop::new(unsafe{uninitialized()});
+        let mut tmp = MaybeUninit::uninit();
         swap(&mut self.buffer[index], &mut tmp);
-        ManuallyDrop::into_inner(tmp)
+        unsafe{tmp.assume_init()}
     }
 
     fn push_at(&mut self, val: T, index: usize) {
         //the replaced value is unitialized, so it should not be dropped
-        self.buffer[index] = ManuallyDrop::new(val);
+        self.buffer[index] = MaybeUninit::new(val);
     }
 }
 
@@ -771,13 +771,13 @@ impl <T> Index<usize> for CircularBuffer<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &<Self as Index<usize>>::Output {
-        &*self.buffer[self.internal_index(index)]
+        unsafe{self.buffer[self.internal_index(index)].assume_init_ref()}
     }
 }
 
 impl <T> IndexMut<usize> for CircularBuffer<T> {
     fn index_mut(&mut self, index: usize) -> &mut <Self as Index<usize>>::Output {
-        &mut *self.buffer[self.internal_index(index)]
+        unsafe{self.buffer[self.internal_index(index)].assume_init_mut()}
     }
 }
 
@@ -789,8 +789,8 @@ impl <T> fmt::Debug for CircularBuffer<T> {
 
 impl <T> FromIterator<T> for CircularBuffer<T>{
     fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x)));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x)));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
 
         let end = buf.len() -1;
@@ -804,8 +804,8 @@ impl <T> FromIterator<T> for CircularBuffer<T>{
 
 impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
     fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x.clone())));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
         let end = buf.len() -1;
         Self {
@@ -817,15 +817,8 @@ impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
 }
 
 impl<T> From<Vec<T>> for CircularBuffer<T>{
-    fn from(mut v : Vec<T>) -> Self {
-        let buf_len = v.len();
-        v.push(unsafe{uninitialized()});
-        v.shrink_to_fit();
-        Self{
-            buffer: unsafe{transmute(v.into_boxed_slice())},
-            start: 0,
-            end: buf_len
-        }
+    fn from(v : Vec<T>) -> Self {
+        Self::from_iter(v)
     }
 }
 
-- 
2.43.0

