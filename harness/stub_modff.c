/* modff for CBMC, which has no model of it: exact below 2^31 */
#ifdef VP_CPROVER
float modff(float x, float *ip) {
  *ip = x > -2147483520.0f && x < 2147483520.0f ? (float)(int)x : x;
  return x - *ip;
}
#endif
