// Support code linked into the module that is executed symbolically: complex
// multiplication and division helpers the compiler emits calls to.
extern "C" {
struct cf { float r, i; };
float _Complex __mulsc3(float a, float b, float c, float d) {
	float _Complex z;
	__real__ z = a * c - b * d;
	__imag__ z = a * d + b * c;
	return z;
}
double _Complex __muldc3(double a, double b, double c, double d) {
	double _Complex z;
	__real__ z = a * c - b * d;
	__imag__ z = a * d + b * c;
	return z;
}
float _Complex __divsc3(float a, float b, float c, float d) {
	// libgcc computes single precision division in double precision
	double den = (double)c * c + (double)d * d;
	float _Complex z;
	__real__ z = (float)(((double)a * c + (double)b * d) / den);
	__imag__ z = (float)(((double)b * c - (double)a * d) / den);
	return z;
}
double _Complex __divdc3(double a, double b, double c, double d) {
	double den = c * c + d * d;
	double _Complex z;
	__real__ z = (a * c + b * d) / den;
	__imag__ z = (b * c - a * d) / den;
	return z;
}
}
