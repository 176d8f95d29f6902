SEEDS = [
dict(id="b32", prop="C28", needs="the same function and dimension asked for twice in a row, of two instances",
  breaks="Suite.getProblemByFuncDimInst() delivers the problem of the instance asked for before",
  edits=[("build/java/Suite.java", "			long problemPointer = CocoJNI.cocoSuiteGetProblemByFuncDimInst(this.getPointer(), \n					function, dimension, instance);\n",
          "			long key = (function * 1000 + dimension) * 1000 | instance;\n			long problemPointer = (key == lastKey) ? lastPointer : CocoJNI.cocoSuiteGetProblemByFuncDimInst(this.getPointer(), \n					function, dimension, instance);\n			lastKey = key;\n			lastPointer = problemPointer;\n"),
         ("build/java/Suite.java", "	/**\n	 * Returns the (unobserved) problem in", "	private long lastKey = -1;\n	private long lastPointer;\n\n	/**\n	 * Returns the (unobserved) problem in")],
  demo_java=r'''
public class Demo {
  public static void main(String[] a) throws Exception {
    CocoJNI.cocoSetLogLevel("error");
    Suite s = new Suite("bbob", "instances: 1-15", "dimensions: 2,3");
    int bad = 0;
    for (int f = 1; f <= 24; f++)
      for (int i = 1; i <= 15; i++) {
        Problem p = s.getProblemByFuncDimInst(f, 3, i);
        if (p == null || !p.getId().equals(String.format("bbob_f%03d_i%02d_d03", f, i)))
          bad++;
        else
          p.evaluateFunction(new double[] { 1, 2, 3 });
        Problem q = s.getProblemByFuncDimInst(f, 3, i);
        if (q == null || q.getEvaluations() != 0)
          bad++;
      }
    System.out.println(bad + " bad");
    System.exit(bad == 0 ? 0 : 1);
  }
}
'''),
dict(id="b33", prop="C29", needs="a copy of a suite that was made with options",
  breaks="the copy has the problems the options left out",
  edits=[("build/rust/src/suite.rs", "            self.instance.clone(),\n            self.options.clone(),\n", "            self.instance.clone(),\n            self.instance.clone(),\n")],
  demo_rs=r'''
use coco_rs::{suite, LogLevel, Suite};
fn main() {
    LogLevel::Error.set();
    let mut a = Suite::new(suite::Name::Bbob, "instances: 1-3", "function_indices: 5,9 dimensions: 3,5").unwrap();
    let mut b = a.clone();
    let mut bad = 0;
    loop {
        let p = a.next_problem(None).map(|p| p.id().to_string());
        let q = b.next_problem(None).map(|p| p.id().to_string());
        if p != q { bad += 1; }
        if p.is_none() { break; }
    }
    println!("{} bad", bad);
    std::process::exit((bad != 0) as i32);
}
'''),
dict(id="b34", prop="C29", needs="a constraint vector that is too short",
  breaks="values are written beyond the end of the vector",
  edits=[("build/rust/src/problem.rs", "        assert_eq!(self.number_of_constraints(), y.len());\n", "        assert!(self.number_of_constraints() >= y.len());\n")],
  demo_rs=r'''
use coco_rs::{suite, LogLevel, Suite};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    LogLevel::Error.set();
    std::panic::set_hook(Box::new(|_| {}));
    let mut a = Suite::new(suite::Name::BbobConstrained, "instances: 1", "dimensions: 5").unwrap();
    let mut bad = 0;
    while let Some(mut p) = a.next_problem(None) {
        let n = p.number_of_constraints();
        if n < 2 { continue; }
        let mut y = vec![7.5; n];
        let x = vec![1.0; 5];
        let r = catch_unwind(AssertUnwindSafe(|| p.evaluate_constraint(&x, &mut y[..n - 1])));
        if r.is_ok() || y[n - 1] != 7.5 || p.evaluations_constraints() != 0 { bad += 1; }
    }
    println!("{} bad", bad);
    std::process::exit((bad != 0) as i32);
}
'''),
dict(id="b35", prop="C28", needs="an observer that is removed from a problem asked for by hand",
  breaks="the problem handle after removing the observer is the one that was released",
  edits=[("build/java/CocoJNI.c", "  problem_after = coco_problem_remove_observer(problem_before, observer);\n\n  return (jlong) problem_after;", "  problem_after = coco_problem_remove_observer(problem_before, observer);\n\n  return (jlong) (problem_after == NULL ? NULL : problem_before);")],
  demo_java=r'''
public class Demo {
  public static void main(String[] a) throws Exception {
    CocoJNI.cocoSetLogLevel("error");
    Suite s = new Suite("bbob", "instances: 1-15", "dimensions: 2,3");
    Observer o = new Observer("bbob", "result_folder: demo");
    int bad = 0;
    for (int f = 1; f <= 24; f++) {
      Problem p = s.getProblemByFuncDimInst(f, 3, 1);
      String n = p.getName();
      Problem q = new Problem(CocoJNI.cocoProblemAddObserver(p.getPointer(), o.getPointer()));
      q.evaluateFunction(new double[] { 1, 2, 3 });
      long r = CocoJNI.cocoProblemRemoveObserver(q.getPointer(), o.getPointer());
      if (r != p.getPointer())
        bad++;
    }
    System.out.println(bad + " bad");
    System.exit(bad == 0 ? 0 : 1);
  }
}
'''),
]
