----------------------------- MODULE ReportTrace -----------------------------
\* lines: the input file; report: the report of it; ran: it was the program
EXTENDS Report, Observed
Ref == ndJsonDeserialize(IOEnv.REF)[1]
Verdict(e) ==
    IF e.op # "report" THEN "unexpected event " \o e.op
    ELSE LET r == Read(e.lines)
         IN  IF e.sig # 0 THEN "killed by a signal"
             ELSE IF FileFault(r) # "" THEN ""
             ELSE IF e.exit # 0 THEN "refuses a valid file"
             ELSE IF e.report = <<>> THEN "there is no report"
             ELSE WrongReport(Settings(r, Ref), e.report)
=============================================================================
