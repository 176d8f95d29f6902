------------------------------ MODULE SuiteDefs ------------------------------
(* The benchmark suites as documented: number of functions, first function     *)
(* number, dimensions, default instances and the instances of each year.       *)
EXTENDS Integers, Sequences

Range2(a, b) == IF a > b THEN <<>> ELSE [k \in 1..(b - a + 1) |-> a + k - 1]

D40  == <<2, 3, 5, 10, 20, 40>>
D640 == <<20, 40, 80, 160, 320, 640>>
D160 == <<5, 10, 20, 40, 80, 160>>

SuiteNames == {"toy", "bbob", "bbob-boxed", "bbob-biobj", "bbob-biobj-ext", "bbob-largescale",
               "bbob-constrained", "bbob-mixint", "bbob-biobj-mixint", "bbob-noisy"}

NumFunctions(s) ==
  CASE s = "toy" -> 6
    [] s \in {"bbob", "bbob-boxed", "bbob-largescale", "bbob-mixint"} -> 24
    [] s = "bbob-biobj" -> 55
    [] s \in {"bbob-biobj-ext", "bbob-biobj-mixint"} -> 92
    [] s = "bbob-constrained" -> 54
    [] s = "bbob-noisy" -> 30

FirstFunction(s) == IF s = "bbob-noisy" THEN 101 ELSE 1

DimensionsOf(s) ==
  CASE s = "toy" -> <<2, 3, 5, 10, 20>>
    [] s \in {"bbob", "bbob-boxed", "bbob-constrained", "bbob-noisy"} -> D40
    [] s \in {"bbob-biobj", "bbob-biobj-ext"} -> D40
    [] s = "bbob-largescale" -> D640
    [] s \in {"bbob-mixint", "bbob-biobj-mixint"} -> D160

R15 == Range2(1, 15)
With5(a, b) == Range2(1, 5) \o Range2(a, b)

BbobYear(y) ==
  CASE y >= 2023 -> With5(101, 110)
    [] y \in {2021, 2022} -> With5(91, 100)
    [] y \in {2018, 2019, 2020} -> With5(71, 80)
    [] y = 2017 -> With5(61, 70)
    [] y \in {2016, 0} -> With5(51, 60)
    [] y = 2015 -> With5(41, 50)
    [] y \in {2013, 2014} -> With5(31, 40)
    [] y = 2012 -> With5(21, 30)
    [] y \in {2010, 2011} -> R15
    [] y = 2009 -> Range2(1, 5) \o Range2(1, 5) \o Range2(1, 5)

YearInstances(s, y) ==
  CASE s = "bbob" -> BbobYear(y)
    [] s = "bbob-boxed" -> IF y = 2023 THEN With5(101, 110) ELSE R15
    [] s \in {"bbob-biobj", "bbob-biobj-ext"} -> IF y \in {0, 2016} THEN Range2(1, 10) ELSE R15
    [] OTHER -> R15

DefaultInstances(s) ==
  CASE s = "toy" -> <<1>>
    [] s = "bbob" -> BbobYear(2018)
    [] s = "bbob-boxed" -> With5(101, 110)
    [] OTHER -> R15
=============================================================================
