import java.io.*;
import java.util.*;

/** Executes the calls on standard input through the Java classes; one answer per line on standard output. */
public class Interp {
    static Map<String, Suite> S = new HashMap<>();
    static Map<String, Observer> O = new HashMap<>();
    static Map<String, Problem> P = new HashMap<>();
    static String bits(double[] v) {
        if (v == null) return "null";
        StringBuilder b = new StringBuilder("[");
        for (double d : v) { if (b.length() > 1) b.append(","); b.append(String.format("%016x", Double.doubleToRawLongBits(d))); }
        return b.append("]").toString();
    }
    static double[] vec(String[] f, int from) {
        double[] x = new double[f.length - from];
        for (int i = 0; i < x.length; i++) x[i] = Double.longBitsToDouble(Long.parseUnsignedLong(f[from + i], 16));
        return x;
    }
    static String made(String h, Problem p) {
        if (p == null) { P.remove(h); return "null"; }
        P.put(h, p);
        return "ok";
    }
    static String exec(String[] f) throws Exception {
        switch (f[0]) {
        case "level": CocoJNI.cocoSetLogLevel(f[1]); return "ok";
        case "suite": S.put(f[1], new Suite(f[2], f[3], f[4])); return S.get(f[1]).getName() + " " + S.get(f[1]).getNumberOfProblems();
        case "obs": O.put(f[1], new Observer(f[2], f[3])); return O.get(f[1]).getName();
        case "count": return "" + S.get(f[1]).getNumberOfProblems();
        case "next": return made(f[3], f[2].equals("-") ? wrap(CocoJNI.cocoSuiteGetNextProblem(S.get(f[1]).getPointer(), 0))
                                                   : new Benchmark(S.get(f[1]), O.get(f[2])).getNextProblem());
        case "get": return made(f[3], wrap(CocoJNI.cocoSuiteGetProblem(S.get(f[1]).getPointer(), Long.parseLong(f[2]))));
        case "fdi": return made(f[5], S.get(f[1]).getProblemByFuncDimInst(Long.parseLong(f[2]), Long.parseLong(f[3]), Long.parseLong(f[4])));
        case "meta": { Problem p = P.get(f[1]);
            for (int i = 0; i < p.getDimension(); i++)
                if (p.getSmallestValueOfInterest(i) != p.getSmallestValuesOfInterest()[i] || p.getLargestValueOfInterest(i) != p.getLargestValuesOfInterest()[i]) return "bounds differ";
            return p.getId() + "|" + p + "|" + p.getName() + "|" + p.getIndex() + "|" + p.getDimension() + "|" + p.getNumberOfObjectives() + "|" + p.getNumberOfConstraints() + "|" + p.getNumberOfIntegerVariables()
              + "|" + bits(p.getSmallestValuesOfInterest()) + "|" + bits(p.getLargestValuesOfInterest()) + "|" + bits(p.getLargestFValuesOfInterest()); }
        case "eval": { double[] x = vec(f, 2), z = x.clone(); double[] y = P.get(f[1]).evaluateFunction(x); return Arrays.equals(x, z) ? bits(y) : "argument changed"; }
        case "cons": { double[] x = vec(f, 2), z = x.clone(); double[] y = P.get(f[1]).evaluateConstraint(x); return Arrays.equals(x, z) ? bits(y) : "argument changed"; }
        case "rec": P.get(f[1]).recommendSolution(vec(f, 2)); return "ok";
        case "state": { Problem p = P.get(f[1]); return p.getEvaluations() + " " + p.getEvaluationsConstraints() + " " + (p.isFinalTargetHit() ? 1 : 0); }
        case "add": return made(f[1], wrap(CocoJNI.cocoProblemAddObserver(P.get(f[1]).getPointer(), O.get(f[2]).getPointer())));
        case "rem": return made(f[1], wrap(CocoJNI.cocoProblemRemoveObserver(P.get(f[1]).getPointer(), O.get(f[2]).getPointer())));
        case "restart": O.get(f[1]).signalRestart(P.get(f[2])); return "ok";
        case "ofree": O.remove(f[1]).finalizeObserver(); return "ok";
        case "sfree": S.remove(f[1]).finalizeSuite(); return "ok";
        case "bfree": new Benchmark(S.remove(f[1]), O.remove(f[2])).finalizeBenchmark(); return "ok";
        }
        return "?";
    }
    static Problem wrap(long p) throws Exception { return p == 0 ? null : new Problem(p); }
    public static void main(String[] a) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in));
        PrintStream out = new PrintStream(new FileOutputStream("answers"), true);
        for (String l; (l = in.readLine()) != null;) {
            String r;
            try { r = exec(l.split("\t", -1)); } catch (Exception e) { r = "exception " + e.getClass().getSimpleName(); }
            out.println("=> " + r);
        }
    }
}
