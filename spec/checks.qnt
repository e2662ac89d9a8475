// -*- mode: Bluespec; -*-
// Configurations of spec/session.qnt, one per property decided by replaying sessions.

/// run() contract: all kinds, run() after any history
module C01 {
  import session(
    KSET = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"),
    OPS = Set("create", "run", "adapt", "predict"), NSET = 1.to(5), LSET = 0.to(8),
    FORMS = Set("f64")).* from "./session"
}

/// basic filters
module C02 {
  import session(
    KSET = Set("LMS", "LMF", "SSLMS", "Llncosh", "GMCC"),
    OPS = Set("create", "run", "adapt"), NSET = 1.to(6), LSET = 0.to(6),
    FORMS = Set("f64")).* from "./session"
}

/// normalised filters
module C03 {
  import session(
    KSET = Set("NLMS", "NLMF", "NSSLMS", "GNGD"),
    OPS = Set("create", "run", "adapt"), NSET = 1.to(6), LSET = 0.to(6),
    FORMS = Set("f64")).* from "./session"
}

/// recursive least squares
module C04 {
  import session(
    KSET = Set("RLS"),
    OPS = Set("create", "run", "adapt"), NSET = 1.to(5), LSET = 0.to(8),
    FORMS = Set("f64")).* from "./session"
}

/// affine projection
module C05 {
  import session(
    KSET = Set("AP"),
    OPS = Set("create", "run", "adapt", "predict"), NSET = 1.to(5), LSET = 0.to(8),
    FORMS = Set("f64")).* from "./session"
}

/// variable step size
module C06 {
  import session(
    KSET = Set("VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"),
    OPS = Set("create", "run", "adapt"), NSET = 1.to(6), LSET = 1.to(8),
    FORMS = Set("f64")).* from "./session"
}

/// online centred NLMS
module C07 {
  import session(
    KSET = Set("OCNLMS"),
    OPS = Set("create", "run", "adapt", "predict", "clear"), NSET = 1.to(5), LSET = 0.to(9),
    FORMS = Set("f64")).* from "./session"
}

/// batch, split and online learning
module C08 {
  import session(
    KSET = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"),
    OPS = Set("create", "run", "adapt"), NSET = 1.to(5), LSET = 0.to(8),
    FORMS = Set("f64")).* from "./session"
}

/// predict() between all other calls
module C09 {
  import session(
    KSET = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"),
    OPS = Set("run", "adapt", "predict"), NSET = 1.to(5), LSET = 1.to(4),
    FORMS = Set("f64")).* from "./session"
}

/// hostile environment: aliasing, clones, two filters
module C10 {
  import session(
    KSET = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"),
    OPS = Set("create", "run", "adapt", "predict", "clone", "scribble", "pretrained"), NSET = 1.to(5), LSET = 1.to(4),
    FORMS = Set("f64", "strided", "transposed", "fortran", "reversed", "readonly")).* from "./session"
}

/// rejected calls
module C11 {
  import session(
    KSET = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"),
    OPS = Set("create", "run", "adapt", "predict", "reject"), NSET = 1.to(5), LSET = 1.to(5),
    FORMS = Set("f64")).* from "./session"
}

/// pretrained_run()
module C12 {
  import session(
    KSET = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"),
    OPS = Set("create", "adapt", "predict", "pretrained"), NSET = 1.to(5), LSET = 0.to(9),
    FORMS = Set("f64")).* from "./session"
}

/// initial weights given to filters that have learned
module C14 {
  import session(
    KSET = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"),
    OPS = Set("create", "run", "adapt", "reinit"), NSET = 1.to(5), LSET = 1.to(4),
    FORMS = Set("f64", "list", "tuple", "intlist", "strided", "readonly", "f32", "i8")).* from "./session"
}

/// representations of the data
module C16 {
  import session(
    KSET = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"),
    OPS = Set("create", "run", "adapt", "predict", "pretrained"), NSET = 1.to(5), LSET = 1.to(4),
    FORMS = Set("f64", "list", "tuple", "intlist", "listofarrays", "strided", "readonly", "reversed", "fortran", "transposed",
      "bigendian", "bigf32", "bigi32", "npscalars", "f32", "f16", "longdouble", "i8", "u8", "i16", "u16", "i32", "i64", "u64")).* from "./session"
}

// Configurations of spec/data.qnt: the data functions.

/// Learning Entropy, direct
module C17 {
  import data(OPS = Set("le"), FORMS = Set("f64", "list", "strided", "readonly", "fortran", "transposed", "tuple")).* from "./data"
}
/// Learning Entropy, multiscale
module C18 {
  import data(OPS = Set("lemulti"), FORMS = Set("f64", "list", "strided", "readonly", "fortran", "transposed", "tuple")).* from "./data"
}
/// ELBND
module C19 {
  import data(OPS = Set("elbnd"), FORMS = Set("f64", "strided", "readonly", "fortran", "transposed")).* from "./data"
}
/// Extreme Seeking Entropy
module C20 {
  import data(OPS = Set("ese"), FORMS = Set("f64")).* from "./data"
}
/// windows of a series
module C21 {
  import data(OPS = Set("windows"), FORMS = Set("f64", "list", "tuple", "intlist", "strided", "readonly", "reversed",
    "bigendian", "bigf32", "bigi32", "npscalars", "f32", "f16", "i8", "u8", "i16", "i32", "i64")).* from "./data"
}
/// standardisation
module C22 {
  import data(OPS = Set("standardize"), FORMS = Set("f64", "list", "tuple", "intlist", "strided", "readonly", "reversed",
    "fortran", "transposed", "bigendian", "bigf32", "bigi32", "npscalars", "f32", "f16", "i8", "u8", "i16", "i32", "i64")).* from "./data"
}
/// error measures
module C25 {
  import data(OPS = Set("errors"), FORMS = Set("f64", "list", "tuple", "intlist", "strided", "readonly", "reversed",
    "bigendian", "bigf32", "bigi32", "npscalars", "f32", "f16", "i8", "u8", "i16", "u16", "i32", "i64", "u64")).* from "./data"
}
/// purity: any history of calls
module C28 {
  import data(OPS = Set("errors", "windows", "standardize", "le", "lemulti", "elbnd", "repeat"),
    FORMS = Set("f64", "readonly", "strided")).* from "./data"
}
