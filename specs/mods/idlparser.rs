//@module idlparser src/generated/idlparser.rs
//@const Idl_T__0
//@const Idl_DocComment
//@const Idl_EmptyComment
//@const Idl_MultiLineComment
//@const Idl_SingleLineComment
//@const Idl_WS
//@const Idl_Protocol
//@const Idl_Namespace
//@const Idl_Import
//@const Idl_IDL
//@const Idl_Schema
//@const Idl_Enum
//@const Idl_Fixed
//@const Idl_Error
//@const Idl_Record
//@const Idl_Array
//@const Idl_Map
//@const Idl_Union
//@const Idl_Boolean
//@const Idl_Int
//@const Idl_Long
//@const Idl_Float
//@const Idl_Double
//@const Idl_String
//@const Idl_Bytes
//@const Idl_Null
//@const Idl_BTrue
//@const Idl_BFalse
//@const Idl_Decimal
//@const Idl_Date
//@const Idl_Time
//@const Idl_Timestamp
//@const Idl_LocalTimestamp
//@const Idl_UUID
//@const Idl_Void
//@const Idl_Oneway
//@const Idl_Throws
//@const Idl_LParen
//@const Idl_RParen
//@const Idl_LBrace
//@const Idl_RBrace
//@const Idl_LBracket
//@const Idl_RBracket
//@const Idl_Colon
//@const Idl_Semicolon
//@const Idl_Comma
//@const Idl_At
//@const Idl_Equals
//@const Idl_Dot
//@const Idl_Dash
//@const Idl_QuestionMark
//@const Idl_LT
//@const Idl_GT
//@const Idl_StringLiteral
//@const Idl_IntegerLiteral
//@const Idl_FloatingPointLiteral
//@const Idl_IdentifierToken
