---------------------------- MODULE CalendarWalk ----------------------------
\* The civil calendar, one day after another: every file format that names days must agree on
\* which day it is.  Day 0 of the walk is given with its Modified Julian Date.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS FirstYear, LastYear, FirstMjd
VARIABLES y, m, d, doy, mjd
vars == <<y, m, d, doy, mjd>>
Leap(n) == n % 4 = 0 /\ (n % 100 # 0 \/ n % 400 = 0)
Days(n, k) == IF k = 2 THEN (IF Leap(n) THEN 29 ELSE 28) ELSE IF k \in {4, 6, 9, 11} THEN 30 ELSE 31
Init == y = FirstYear /\ m = 1 /\ d = 1 /\ doy = 1 /\ mjd = FirstMjd
Next == /\ mjd' = mjd + 1
        /\ IF d < Days(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y /\ doy' = doy + 1
           ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y /\ doy' = doy + 1
           ELSE d' = 1 /\ m' = 1 /\ y' = y + 1 /\ doy' = 1
        /\ (m = 12 /\ d = 31 => y < LastYear)
Spec == Init /\ [][Next]_vars
\* the days of a year are numbered from 1 to its length, and centuries are not leap years
Ends == (m = 12 /\ d = 31) => doy = IF Leap(y) THEN 366 ELSE 365
\* counting the leap days directly gives the same Modified Julian Date
Before(n) == 365 * n + ((n - 1) \div 4) - ((n - 1) \div 100) + ((n - 1) \div 400)   \* days before 1 January of year n
Direct == mjd = FirstMjd + Before(y) - Before(FirstYear) + doy - 1
\* a second of the day: now and then the first or the last one
Second == IF mjd % 5 = 0 THEN 0 ELSE IF mjd % 7 = 0 THEN 86399 ELSE (mjd * 7919) % 86400
\* GPS weeks count from Sunday 6 January 1980, Modified Julian Date 44244
Emit == PrintT("SCN " \o ToJson([y |-> y, m |-> m, d |-> d, doy |-> doy, mjd |-> mjd, sod |-> Second, week |-> (mjd - 44244) \div 7, dow |-> (mjd - 44244) % 7]))
=============================================================================
