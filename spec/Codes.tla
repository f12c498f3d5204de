------------------------------- MODULE Codes -------------------------------
(* The named reply codes: what RFC 5321 (4.2.3) assigns to each situation. *)
EXTENDS Naturals, Sequences, FiniteSets

Named == [SYSTEM_STATUS |-> 211, HELP_MESSAGE |-> 214, SERVICE_READY |-> 220, CLOSING_CHANNEL |-> 221,
          OKAY |-> 250, USER_NOT_LOCAL_WILL_FORWARD |-> 251, CANNOT_VRFY_BUT_PLEASE_TRY |-> 252,
          START_MAIL_INPUT |-> 354,
          SERVICE_NOT_AVAILABLE |-> 421, MAILBOX_TEMPORARILY_UNAVAILABLE |-> 450, LOCAL_ERROR |-> 451,
          INSUFFICIENT_STORAGE |-> 452, UNABLE_TO_ACCEPT_PARAMETERS |-> 455,
          COMMAND_UNRECOGNIZED |-> 500, SYNTAX_ERROR |-> 501, COMMAND_UNIMPLEMENTED |-> 502,
          BAD_SEQUENCE |-> 503, PARAMETER_UNIMPLEMENTED |-> 504, MAILBOX_UNAVAILABLE |-> 550,
          POLICY_REASON |-> 550, USER_NOT_LOCAL |-> 551, EXCEEDED_STORAGE |-> 552,
          MAILBOX_NAME_INCORRECT |-> 553, TRANSACTION_FAILED |-> 554,
          MAIL_OR_RCPT_PARAMETER_UNIMPLEMENTED |-> 555]

(* the situations a configuration answers, and the codes RFC 5321 (4.3.2) has for them *)
Situations == [greet |-> "SERVICE_READY", okay |-> "OKAY", mailok |-> "OKAY", rcptok |-> "OKAY", accepted |-> "OKAY",
               dataok |-> "START_MAIL_INPUT", badseq |-> "BAD_SEQUENCE", inmail |-> "BAD_SEQUENCE",
               rcptbm |-> "BAD_SEQUENCE", databr |-> "BAD_SEQUENCE", databm |-> "BAD_SEQUENCE",
               unimpl |-> "COMMAND_UNIMPLEMENTED", unrec |-> "COMMAND_UNRECOGNIZED"]

(* 2 done, 3 go on, 4 try again later, 5 do not try again: what a client decides by *)
Class(c) == c \div 100
(* 0 syntax, 1 information, 2 connections, 5 the mail system *)
Group(c) == (c \div 10) % 10
Names == DOMAIN Named
Done == {"SYSTEM_STATUS", "HELP_MESSAGE", "SERVICE_READY", "CLOSING_CHANNEL", "OKAY", "USER_NOT_LOCAL_WILL_FORWARD",
         "CANNOT_VRFY_BUT_PLEASE_TRY"}
Later == {"SERVICE_NOT_AVAILABLE", "MAILBOX_TEMPORARILY_UNAVAILABLE", "LOCAL_ERROR", "INSUFFICIENT_STORAGE",
          "UNABLE_TO_ACCEPT_PARAMETERS"}
Syntax == {"COMMAND_UNRECOGNIZED", "SYNTAX_ERROR", "COMMAND_UNIMPLEMENTED", "BAD_SEQUENCE", "PARAMETER_UNIMPLEMENTED"}
ASSUME \A n \in Names : Named[n] \in 200..599 /\ Group(Named[n]) \in {0, 1, 2, 5}
ASSUME \A n \in Names : Class(Named[n]) = (CASE n \in Done -> 2 [] n = "START_MAIL_INPUT" -> 3 [] n \in Later -> 4 [] OTHER -> 5)
ASSUME \A n \in Names : Class(Named[n]) = 5 => (Group(Named[n]) = 0 <=> n \in Syntax)
(* only the refusal for reasons of policy shares its number *)
ASSUME \A a, b \in Names : a # b /\ Named[a] = Named[b] => {a, b} = {"MAILBOX_UNAVAILABLE", "POLICY_REASON"}
=============================================================================
